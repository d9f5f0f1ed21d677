"""fixed.py PROPERTY COMMIT...: append the 'fixed:' line of a repair commit of /repo to known_findings.txt"""
import subprocess, sys
prop, p = sys.argv[1], "/verif/known_findings.txt"
old = open(p).read()
with open(p, "a") as f:
    for c in sys.argv[2:]:
        h, s = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%h|%s", c], capture_output=True, text=True).stdout.strip().split("|", 1)
        if f" {h} " not in old:
            f.write(f"fixed: property={prop} {h} {s.removeprefix('fix: ')}\n")
