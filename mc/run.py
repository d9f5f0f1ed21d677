#!/usr/bin/env python3
"""Builds a check against /repo's current working tree and runs it.   run.py ID TIER [--replay FILE] | --build-only
Objects are cached by content (flags, compiler inputs, every header of CEX, the source), never by time stamp."""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
B = f"{V}/build"
STALE = {"ACSTest", "DLTMK5Q8380417N256", "DLTMK6Q8380417N256", "SocketReceiver", "SocketSender"}
BASE = ("-std=c++17 -gline-tables-only -w -mavx2 -maes -mpclmul -mrdrnd -mrdseed -msha -mbmi2 -mxsave -fno-strict-aliasing -fwrapv"
        " -DNDEBUG -DUNICODE -D_UNICODE -fdelayed-template-parsing -fms-extensions -fms-compatibility -fms-compatibility-version=19.30"
        " -fexceptions -fcxx-exceptions -D__EXCEPTIONS=1 -fgnuc-version=4.2.1 -D__STDC__=1 -fno-omit-frame-pointer"
        f" -I{B}/src -I{V}/native/inc").split()
VARIANT = {
    "plain": ["-O1"],
    "wipe": ["-O0"],          # what the source asks to be cleared, before an optimiser has an opinion about dead stores
    "asan": ["-O1", "-fsanitize=address"],
    "tsan": ["-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=false"],
}
LINK = {"plain": [], "wipe": [], "asan": ["-fsanitize=address"], "tsan": []}
FSPATCH = ("static_cast<int32_t>(Access) | static_cast<int32_t>(Mode))",
           "static_cast<std::ios_base::openmode>(static_cast<int32_t>(Access) | static_cast<int32_t>(Mode)))")


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


SUFFIX = re.compile(rb"(?<![\w.'])(0[xX][0-9A-Fa-f]+|[0-9]+)(?:([uU])[lL]|[lL]([uU]?))(?![lLuU\w.])")


def mirror():
    """CEX as the compiler sees it here: the supported platform has 32-bit longs, so literals with an L suffix lose it."""
    d = f"{B}/src"
    os.makedirs(d, exist_ok=True)
    names = set()
    for f in glob.glob(f"{REPO}/CEX/*.h") + glob.glob(f"{REPO}/CEX/*.cpp"):
        n = os.path.basename(f)
        names.add(n)
        t = SUFFIX.sub(lambda m: m.group(1) + (m.group(2) or m.group(3) or b""), rd(f))
        o = f"{d}/{n}"
        if not os.path.exists(o) or rd(o) != t:
            with open(o, "wb") as g:
                g.write(t)
    for n in os.listdir(d):
        if n not in names:
            os.remove(f"{d}/{n}")


def headers_key():
    hs = sorted(glob.glob(f"{REPO}/CEX/*.h"))
    ours = sorted(glob.glob(f"{V}/native/inc/*")) + [f"{V}/native/prelude.h"]
    return sha(*[x for h in hs + ours for x in (os.path.basename(h), rd(h))])


def run(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def cc(cmd_pch, cmd_plain, out):
    tmp = f"{out}.{os.getpid()}.tmp"
    r = run(cmd_pch + ["-o", tmp])
    first = r.stdout
    if r.returncode:
        r = run(cmd_plain + ["-o", tmp])
    if r.returncode:
        if os.path.exists(tmp):
            os.remove(tmp)
        return r.stdout or first
    os.replace(tmp, out)
    return None


def build_lib(variant, log):
    """objects of every CEX source for the variant -> list of object paths"""
    d = f"{B}/{variant}"
    os.makedirs(d, exist_ok=True)
    flags = BASE + VARIANT[variant]
    hk = headers_key()
    pch = f"{d}/prelude-{sha(hk, *flags)}.pch"
    jobs, objs = [], []
    for f in sorted(glob.glob(f"{REPO}/CEX/*.cpp")):
        stem = os.path.basename(f)[:-4]
        if stem in STALE:
            continue
        o = f"{d}/{stem}-{sha(hk, rd(f), *flags)}.o"
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((stem, f, o))
    if jobs and not os.path.exists(pch):
        e = cc(["clang++", *flags, "-xc++-header", f"{V}/native/prelude.h"], ["false"], pch)
    old = {}
    for stem, f, o in jobs:
        for x in glob.glob(f"{d}/{stem}-*.o"):
            if re.fullmatch(re.escape(stem) + r"-[0-9a-f]{24}\.o", os.path.basename(x)) and x not in objs:
                os.remove(x)
    for x in glob.glob(f"{d}/prelude-*.pch"):
        if x != pch:
            os.remove(x)

    def one(j):
        stem, f, o = j
        src = f"{B}/src/{stem}.cpp"
        if stem == "FileStream":
            src0, src = src, f"{d}/gen_FileStream.cpp"
            with open(src, "w") as g:
                g.write(rd(src0).decode("utf-8", "replace").replace(*FSPATCH))
        return stem, cc(["clang++", *flags, "-include-pch", pch, "-c", src], ["clang++", *flags, "-include", f"{V}/native/prelude.h", "-c", src], o)

    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        for stem, err in ex.map(one, jobs):
            if err is not None:
                log(f"BUILD-ERROR {stem}.cpp\n{err[:4000]}")
                raise SystemExit(3)
    ar = f"{d}/libcex-{sha(*objs)}.a"
    if not os.path.exists(ar):
        for x in glob.glob(f"{d}/libcex-*.a"):
            os.remove(x)
        r = run(["ar", "crs", ar, *objs])
        if r.returncode:
            log(r.stdout)
            raise SystemExit(3)
    return ar, pch, flags, hk


def build_check(cid, log=print):
    src = f"{V}/checks/{cid}.cpp"
    text = rd(src).decode()
    m = re.search(r"^// MC-VARIANT: (\w+)", text, re.M)
    variant = m.group(1) if m else "asan"
    extra = re.search(r"^// MC-LINK: (.*)$", text, re.M)
    extra = extra.group(1).split() if extra else []
    more = re.search(r"^// MC-SOURCES: (.*)$", text, re.M)
    more = more.group(1).split() if more else []
    os.makedirs(B, exist_ok=True)
    with open(f"{B}/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mirror()
        ar, pch, flags, hk = build_lib(variant, log)
        d = f"{B}/{variant}"
        ours = sorted(glob.glob(f"{V}/mc/*.h") + glob.glob(f"{V}/checks/*.h") + glob.glob(f"{V}/native/*.h"))
        ok = sha(hk, *[rd(x) for x in ours])
        objs = []
        # the engine itself is never instrumented
        eng = [x for x in BASE if not x.startswith(("-fms", "-fdelayed", "-fgnuc", "-D__STDC__", "-D__EXC"))] + ["-O2"] + (["-fsanitize=address"] if variant == "asan" else [])
        units = [(f"{V}/mc/mc.cpp", eng), (f"{V}/native/winsim.cpp", eng)]
        for s in more:
            units.append((f"{V}/{s}", eng))
        todo = []
        for s, fl in units:
            o = f"{d}/_{os.path.basename(s)}-{sha(ok, rd(s), *fl)}.o"
            objs.append(o)
            if not os.path.exists(o):
                todo.append((["clang++", *fl, "-c", s], ["false"], o))
        o = f"{d}/_check_{cid}-{sha(ok, text, *flags)}.o"
        objs.append(o)
        if not os.path.exists(o):
            for x in glob.glob(f"{d}/_check_{cid}-*.o"):
                os.remove(x)
            cf = flags + [f"-I{V}"]
            todo.append((["clang++", *cf, "-include-pch", pch, "-c", src], ["clang++", *cf, "-include", f"{V}/native/prelude.h", "-c", src], o))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for err in ex.map(lambda t: cc(*t), todo):
                if err is not None:
                    log(f"BUILD-ERROR check {cid}\n{err[:6000]}")
                    raise SystemExit(3)
        exe = f"{d}/{cid}-{sha(ar, *objs, *extra)}.exe"
        if not os.path.exists(exe):
            for x in glob.glob(f"{d}/{cid}-*.exe"):
                os.remove(x)
            order = [*objs, ar]
            if variant == "tsan":            # the instrumented copies of inline functions come first, the engine's own last
                order = [objs[-1], "-Wl,--whole-archive", ar, "-Wl,--no-whole-archive", *objs[:-1]]
            r = run(["clang++", *LINK[variant], "-rdynamic", "-o", exe, *order, "-lpthread", "-ldl", *extra])
            if r.returncode:
                log(f"LINK-ERROR check {cid}\n{r.stdout[:6000]}")
                raise SystemExit(3)
        # keep a private copy name stable while we run: executables are content addressed, so nothing replaces it
        return exe, variant


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build-only":
        for c in a[1:] or [os.path.basename(x)[:-4] for x in sorted(glob.glob(f"{V}/checks/C*.cpp"))]:
            print(c, build_check(c)[0], flush=True)
        return 0
    cid, tier = a[0], (a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
    rest = a[2:]
    exe, variant = build_check(cid)
    os.makedirs(f"{V}/evidence", exist_ok=True)
    os.makedirs(f"{B}/replays", exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:max_malloc_fill_size=65536:malloc_fill_byte=190:symbolize=1", MALLOC_PERTURB_="165", LC_ALL="C")
    cmd = [exe, "--tier", tier, "--known", f"{V}/known_findings.txt", "--replays", f"{B}/replays", "--workers", str(min(8, os.cpu_count() or 8)),
           "--budget", "420" if tier == "quick" else "10800"]
    if not rest:
        cmd += ["--evidence", f"{V}/evidence/{cid}.json"]
    cmd += rest
    if variant == "tsan":
        cmd = ["setarch", "-R"] + cmd if shutil.which("setarch") and run(["setarch", "-R", "true"]).returncode == 0 else cmd
    sys.stdout.flush()
    return subprocess.run(cmd, env=env).returncode


if __name__ == "__main__":
    sys.exit(main())
