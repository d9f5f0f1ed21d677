#include "mc.h"
#include "../native/winctl.h"
#include <algorithm>
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <thread>
#include <unordered_set>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <execinfo.h>

/* The number of processors is an input of the library: the harness fixes it. */
unsigned std::thread::hardware_concurrency() noexcept { return sim::cpu.logical; }

namespace mc
{
	bool g_verbose = false;
	namespace
	{
		struct Job { std::string name; std::function<void()> body; };
		struct Pt { int c, n; };
		std::vector<Job> g_jobs; std::string g_bounds; std::vector<std::string> g_assume; bool g_thorough = false; uint64_t g_seed = 1; int g_hang = 60; bool g_fork = false, g_forked = false;
		std::vector<Pt> g_stack; size_t g_pos = 0; int g_dev = 0, g_devBound = 0; bool g_replay = false;
		std::vector<std::string> g_trace; std::unordered_set<uint64_t> g_states; std::unordered_set<uint64_t> g_outcomes; uint64_t g_jobSalt = 0;
		const int MAXC = 6000; const int MAXW = 64;
		struct Shared
		{
			std::atomic<uint32_t> next; std::atomic<uint32_t> done; std::atomic<int> stop;
			struct W { volatile uint32_t job; volatile int np; int c[MAXC]; int n[MAXC]; volatile uint64_t beats; uint64_t execs, trans, states, outcomes, maxDepth, infeasible, choices; char key[256]; char msg[4096]; volatile int violated; volatile int busy; char known[64][192]; int nknown; char sample[3][1500]; int nsample; volatile int fdone; int fst, foc; uint64_t fstates[256], foutcomes[64]; } w[MAXW];
		};
		Shared* S = nullptr; Shared::W* me = nullptr; std::set<std::string> g_known; std::string g_prop;
		struct Diverged { std::string what; };
		double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
		std::string esc(const std::string& s) { std::string r; for (char ch : s) { unsigned char c = (unsigned char)ch; if (c == '"' || c == '\\') { r += '\\'; r += ch; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += ch; } return r; }
	}
	int choose(int n)
	{
		if (n <= 0) { throw Infeasible(); }
		if (n == 1) return 0;
		int c;
		if (g_pos < g_stack.size())
		{
			if (g_stack[g_pos].n == 0) g_stack[g_pos].n = n;      /* replay file: arity unknown */
			if (g_stack[g_pos].n != n || g_stack[g_pos].c >= n) throw Diverged{ "choice point " + std::to_string(g_pos) + " had " + std::to_string(g_stack[g_pos].n) + " alternatives, now " + std::to_string(n) };
			c = g_stack[g_pos].c;
		}
		else { g_stack.push_back(Pt{ 0, n }); c = 0; if (me && g_pos < (size_t)MAXC) { me->c[g_pos] = 0; me->n[g_pos] = n; } }
		++g_pos; if (me) { me->np = (int)std::min<size_t>(g_pos, MAXC); ++me->choices; }
		return c;
	}
	int deviate(int n) { if (n <= 1 || g_dev >= g_devBound) return 0; int c = choose(n); if (c) ++g_dev; return c; }
	void setDeviations(int b) { g_devBound = b; }
	int deviationsUsed() { return g_dev; }
	void transition() { if (me) { ++me->trans; ++me->beats; } }
	void note(const char* f, ...) { if (!g_verbose) return; char b[4000]; va_list a; va_start(a, f); std::vsnprintf(b, sizeof b, f, a); va_end(a); if (g_trace.size() < 4000) g_trace.push_back(b); }
	void state(uint64_t h) { if (g_states.size() < 4000000) g_states.insert(combine(h, g_jobSalt)); }
	void outcome(uint64_t h) { if (g_outcomes.size() < 4000000) g_outcomes.insert(combine(h, g_jobSalt)); }
	void fail(const char* key, const char* f, ...) { char b[4000]; va_list a; va_start(a, f); std::vsnprintf(b, sizeof b, f, a); va_end(a); throw Violation{ key, b }; }
	static void noteKnown(const std::string& key) { if (!me) return; for (int i = 0; i < me->nknown; ++i) if (key == me->known[i]) return; if (me->nknown < 64) { std::snprintf(me->known[me->nknown], 192, "%s", key.c_str()); ++me->nknown; } }
	void finding(const char* key, const char* what) { if (g_known.count(key)) { noteKnown(key); return; } throw Violation{ key, what }; }
	uint64_t hash(const void* p, size_t n, uint64_t h) { const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ULL; } return h ^ (h >> 29); }
	uint64_t combine(uint64_t a, uint64_t b) { a ^= b + 0x9E3779B97F4A7C15ULL + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdULL; return a ^ (a >> 32); }
	std::string hex(const uint8_t* p, size_t n, size_t max) { std::string r; char b[4]; for (size_t i = 0; i < n && i < max; ++i) { std::snprintf(b, 4, "%02x", p[i]); r += b; } if (n > max) r += "..(" + std::to_string(n) + ")"; return r; }
	bool thorough() { return g_thorough; }
	uint64_t seed() { return g_seed; }
	void job(const std::string& n, std::function<void()> b) { if (const char* f = getenv("MC_JOBS")) if (n.find(f) == std::string::npos) return; g_jobs.push_back(Job{ n, std::move(b) }); }
	void bounds(const std::string& t) { g_bounds += (g_bounds.empty() ? "" : "; ") + t; }
	void assume(const std::string& t) { g_assume.push_back(t); }
	void setHangSeconds(int s) { g_hang = s; }
	void forkEach(bool on) { g_fork = on; }
	void fatal(const char* key, const char* msg)
	{
		int r = std::strncmp(key, "engine", 6) == 0 ? 2 : 1;
		if (!me) { for (auto& t : g_trace) std::printf("  %s\n", t.c_str()); std::printf("@@%d %s\n@@msg %s\n", r, key, msg); std::fflush(stdout); _exit(40 + r); }
		std::snprintf(me->key, sizeof me->key, "%s", key); std::snprintf(me->msg, sizeof me->msg, "%s", msg);
		if (g_forked) { me->fdone = 10 + r; _exit(0); }
		me->violated = r; S->stop.store(1); _exit(40 + r);
	}

	/* one execution; returns 0 ok, 1 violation (key/msg set), 2 engine error */
	static int execute(const Job& j, std::string& key, std::string& msg)
	{
		g_pos = 0; g_dev = 0; g_devBound = 0; g_trace.clear(); sim::reset();
		try { j.body(); }
		catch (const Violation& v) { key = v.key; msg = v.msg; return 1; }
		catch (const Infeasible&) { if (me) ++me->infeasible; return 0; }
		catch (const Diverged& d) { key = "engine:diverged"; msg = d.what; return 2; }
		catch (const std::bad_alloc& e) { key = "unexpected-exception"; msg = std::string("out of memory: ") + e.what(); return 1; }
		catch (const std::exception& e) { key = "unexpected-exception"; msg = e.what(); return 1; }
		if (g_pos < g_stack.size()) { key = "engine:diverged"; msg = "execution ended before its recorded prefix"; return 2; }
		return 0;
	}
	static void sampleTo(Shared::W* w, const std::string& job)
	{
		if (w->nsample >= 3) return; std::string s = job + ":"; for (auto& t : g_trace) { s += " " + t + ";"; if (s.size() > 1400) break; } std::snprintf(w->sample[w->nsample++], 1500, "%s", s.c_str());
	}
	static bool advance() { while (!g_stack.empty() && g_stack.back().c + 1 >= g_stack.back().n) g_stack.pop_back(); if (g_stack.empty()) return false; ++g_stack.back().c; if (me) for (size_t i = 0; i < g_stack.size() && i < (size_t)MAXC; ++i) { me->c[i] = g_stack[i].c; me->n[i] = g_stack[i].n; } return true; }

	/* one execution in a child; the choice stack comes back through the shared record */
	static int executeForked(const Job& j, std::string& key, std::string& msg)
	{
		me->fdone = 0; me->fst = me->foc = 0; pid_t parent = getpid(); pid_t p = fork();
		if (p < 0) { key = "engine:fork"; msg = "fork failed"; return 2; }
		if (p == 0)
		{
			prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != parent) _exit(0);
			g_forked = true; int r = execute(j, key, msg); if (g_verbose && r == 0) sampleTo(me, j.name); if (g_pos > (size_t)MAXC) { r = 2; key = "engine:depth"; msg = "more choices than the engine keeps"; }
			for (auto h : g_states) if (me->fst < 256) me->fstates[me->fst++] = h;
			for (auto h : g_outcomes) if (me->foc < 64) me->foutcomes[me->foc++] = h;
			std::snprintf(me->key, sizeof me->key, "%s", key.c_str()); std::snprintf(me->msg, sizeof me->msg, "%s", msg.c_str()); me->fdone = 10 + r; _exit(0);
		}
		int st = 0; while (waitpid(p, &st, 0) < 0) {}
		size_t keep = g_stack.size(); (void)keep; int np = me->np; g_stack.clear(); for (int i = 0; i < np; ++i) g_stack.push_back(Pt{ me->c[i], me->n[i] }); g_pos = (size_t)np;
		if (me->fdone < 10) { key = "crash"; msg = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "the process ended with status " + std::to_string(WEXITSTATUS(st)); return 1; }
		for (int i = 0; i < me->fst; ++i) g_states.insert(me->fstates[i]); for (int i = 0; i < me->foc; ++i) g_outcomes.insert(me->foutcomes[i]);
		key = me->key; msg = me->msg; return me->fdone - 10;
	}

	static int worker(int id, const std::vector<uint32_t>& order)
	{
		me = &S->w[id]; 
		for (;;)
		{
			if (S->stop.load()) break;
			uint32_t k = S->next.fetch_add(1); if (k >= order.size()) break;
			const Job& j = g_jobs[order[k]]; me->job = order[k]; me->busy = 1; g_stack.clear(); g_states.clear(); g_outcomes.clear(); g_jobSalt = hash(j.name); bool first = true; double tj = now(); uint64_t xj = me->execs;
			do
			{
				me->np = 0; ++me->beats; g_verbose = first && me->nsample < 2; std::string key, msg; int r = g_fork ? executeForked(j, key, msg) : execute(j, key, msg); ++me->execs; me->maxDepth = std::max<uint64_t>(me->maxDepth, g_pos);
				if (g_verbose && r == 0 && !g_fork) sampleTo(me, j.name);
				g_verbose = false; first = false;
				if (r == 1 && g_known.count(key)) { noteKnown(key); r = 0; }
				if (r == 1 && getenv("MC_ALL")) { FILE* f = std::fopen(getenv("MC_ALL"), "a"); std::fprintf(f, "%s [%s] %s\n", j.name.c_str(), key.c_str(), msg.c_str()); std::fclose(f); break; }   /* development aid: list the first violation of every job */
				if (r) { std::snprintf(me->key, sizeof me->key, "%s", key.c_str()); std::snprintf(me->msg, sizeof me->msg, "%s", msg.c_str()); me->np = (int)std::min<size_t>(g_pos, MAXC); for (size_t i = 0; i < g_stack.size() && i < (size_t)MAXC; ++i) { me->c[i] = g_stack[i].c; me->n[i] = g_stack[i].n; } me->violated = r; S->stop.store(1); _exit(40 + r); }
				if (S->stop.load()) break;
			} while (advance());
			if (getenv("MC_TIME")) { FILE* f = std::fopen(getenv("MC_TIME"), "a"); std::fprintf(f, "%8.2f %7llu %s\n", now() - tj, (unsigned long long)(me->execs - xj), j.name.c_str()); std::fclose(f); }   /* development aid */
			me->states += g_states.size(); me->outcomes += g_outcomes.size(); me->busy = 0;
			if (!S->stop.load()) S->done.fetch_add(1);
		}
		me->busy = 0; std::fflush(nullptr); _exit(0);
	}
}
using namespace mc;

static std::string slurpTail(const std::string& p, size_t n) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); std::string t = s.str(); return t.size() > n ? t.substr(0, n) : t; }

struct Case { std::string job; std::vector<int> choices; std::string key, msg; };

/* run one recorded execution in a child; returns 0 clean, 1 violation (same key or crash), 3 hang */
static int replayChild(const Case& c, int limit, std::string& key, std::string& msg, std::string& trace)
{
	std::string out = "/tmp/mcreplay." + std::to_string(getpid()) + ".txt";
	pid_t p = fork();
	if (p == 0)
	{
		int fd = open(out.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); dup2(fd, 2);
		me = nullptr; g_verbose = true; g_stack.clear(); for (int v : c.choices) g_stack.push_back(Pt{ v, 0 });
		for (auto& j : g_jobs) if (j.name == c.job) { std::string k, m; int r = execute(j, k, m); for (auto& t : g_trace) std::printf("  %s\n", t.c_str()); std::printf("@@%d %s\n@@msg %s\n", r, k.c_str(), m.c_str()); std::fflush(nullptr); _exit(r == 1 ? 41 : r == 2 ? 42 : 0); }
		std::printf("@@2 no such job\n"); std::fflush(nullptr); _exit(42);
	}
	int st = 0; double t0 = now(); bool hang = false;
	for (;;) { pid_t w = waitpid(p, &st, WNOHANG); if (w == p) break; if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); hang = true; break; } usleep(2000); }
	std::string text = slurpTail(out, 20000); unlink(out.c_str()); size_t a = text.find("@@"); trace = a == std::string::npos ? text : text.substr(0, a);
	if (hang) { key = "hang"; msg = "no result after " + std::to_string(limit) + " s"; return 3; }
	if (WIFSIGNALED(st)) { key = "crash"; msg = std::string("killed by signal ") + std::to_string(WTERMSIG(st)); return 1; }
	int e = WEXITSTATUS(st); if (e == 0) return 0;
	if (e == 41) { size_t b = text.find("@@1 "), m = text.find("@@msg "); key = text.substr(b + 4, text.find('\n', b) - b - 4); msg = text.substr(m + 6); while (!msg.empty() && msg.back() == '\n') msg.pop_back(); return 1; }
	if (e == 42) { key = "engine"; msg = text.substr(a == std::string::npos ? 0 : a); return 2; }
	key = "crash"; msg = "exit status " + std::to_string(e) + " (sanitizer report or abort)"; return 1;
}

int main(int argc, char** argv)
{
	std::string tier = "quick", evid, replayDir = ".", replayFile, knownFile; int nw = 8; double budget = 500; bool list = false; std::string only;
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
		if (a == "--tier") tier = nx(); else if (a == "--evidence") evid = nx(); else if (a == "--replays") replayDir = nx(); else if (a == "--replay") replayFile = nx();
		else if (a == "--known") knownFile = nx(); else if (a == "--workers") nw = std::stoi(nx()); else if (a == "--budget") budget = std::stod(nx()); else if (a == "--list") list = true; else if (a == "--only") only = nx();
	}
	g_thorough = tier == "thorough"; if (const char* s = getenv("VERIF_SEED")) g_seed = strtoull(s, nullptr, 10); g_prop = MC_PROPERTY;
	if (!knownFile.empty()) { std::ifstream f(knownFile); std::string l; while (std::getline(f, l)) { std::string pre = "finding: property=" + g_prop + " key="; if (l.compare(0, pre.size(), pre) == 0) { std::string r = l.substr(pre.size()); g_known.insert(r.substr(0, r.find(' '))); } } }
	sim::reset(); mc_register();
	if (list) { for (auto& j : g_jobs) std::printf("%s\n", j.name.c_str()); return 0; }
	if (!replayFile.empty())
	{
		Case c; std::ifstream f(replayFile); std::string l; while (std::getline(f, l)) { if (l.compare(0, 4, "job=") == 0) c.job = l.substr(4); else if (l.compare(0, 8, "choices=") == 0) { std::stringstream s(l.substr(8)); int v; while (s >> v) c.choices.push_back(v); } }
		std::string k, m, t; int r = replayChild(c, 600, k, m, t); std::printf("replay of %s\n%s", c.job.c_str(), t.c_str()); if (r == 0) { std::printf("result: property held on this execution\n"); return 0; } std::printf("result: %s: %s\n", k.c_str(), m.c_str()); return 1;
	}
	double t0 = now(); S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (S == MAP_FAILED) { std::perror("mmap"); return 2; }
	std::vector<uint32_t> order; for (uint32_t i = 0; i < g_jobs.size(); ++i) if (only.empty() || g_jobs[i].name.find(only) != std::string::npos) order.push_back(i);
	nw = std::min<int>(nw, std::max<int>(1, (int)order.size())); std::vector<pid_t> pid((size_t)nw); std::vector<std::string> errf((size_t)nw);
	std::fflush(nullptr);
	auto spawn = [&](int i) { pid[(size_t)i] = fork(); if (pid[(size_t)i] == 0) { int fd = open(errf[(size_t)i].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); dup2(fd, 2); worker(i, order); } };
	for (int i = 0; i < nw; ++i) { errf[(size_t)i] = "/tmp/mcworker." + std::to_string(getpid()) + "." + std::to_string(i); spawn(i); }
	std::vector<uint64_t> beat((size_t)nw, 0); std::vector<double> bt((size_t)nw, now()); int live = nw; bool capped = false; int bad = -1; int badWhy = 0; std::string badMsg;
	while (live > 0)
	{
		for (int i = 0; i < nw; ++i) if (pid[(size_t)i] > 0)
		{
			int st; pid_t w = waitpid(pid[(size_t)i], &st, WNOHANG);
			if (w == pid[(size_t)i]) { pid[(size_t)i] = 0; --live; bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0;
				if (!clean && !S->w[i].violated && !capped && getenv("MC_ALL")) { std::string e = slurpTail(errf[(size_t)i], 1500); for (auto& ch : e) if (ch == '\n') ch = '~'; FILE* f = std::fopen(getenv("MC_ALL"), "a"); std::fprintf(f, "%s [crash] %s\n", g_jobs[S->w[i].job].name.c_str(), e.c_str()); std::fclose(f); spawn(i); ++live; continue; }   /* development aid: go on after a crash */
				if (!clean && bad < 0) { bad = i; S->stop.store(1); if (S->w[i].violated) badWhy = S->w[i].violated; else { badWhy = 1; badMsg = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st)); } } continue; }
			if (S->w[i].beats != beat[(size_t)i]) { beat[(size_t)i] = S->w[i].beats; bt[(size_t)i] = now(); }
			else if (S->w[i].busy && bad < 0 && now() - bt[(size_t)i] > g_hang) { kill(pid[(size_t)i], SIGKILL); waitpid(pid[(size_t)i], &st, 0); pid[(size_t)i] = 0; --live; bad = i; badWhy = 3; S->stop.store(1); }
		}
		if (!capped && now() - t0 > budget) { capped = true; S->stop.store(1); }
		if (S->stop.load() && bad >= 0 && now() - t0 > 5) { /* give others a moment, then end them */ static double ts = now(); if (now() - ts > 3) for (int i = 0; i < nw; ++i) if (pid[(size_t)i] > 0) kill(pid[(size_t)i], SIGKILL); }
		if (capped && now() - t0 > budget + 60) for (int i = 0; i < nw; ++i) if (pid[(size_t)i] > 0) kill(pid[(size_t)i], SIGKILL);
		usleep(3000);
	}
	int rc = 0; Case c; std::string trace; std::string rkey, rmsg;
	if (bad >= 0 && capped && !S->w[bad].violated && badWhy == 1 && badMsg.find("signal 9") != std::string::npos) { bad = -1; }
	if (bad >= 0)
	{
		auto& w = S->w[bad]; c.job = g_jobs[w.job].name; int np = w.np; for (int i = 0; i < np; ++i) c.choices.push_back(w.c[i]);
		if (w.violated) { c.key = w.key; c.msg = w.msg; } else { c.key = badWhy == 3 ? "hang" : "crash"; c.msg = badWhy == 3 ? "no progress" : badMsg + " | " + slurpTail(errf[(size_t)bad], 3000); }
		int again = 0; bool same = false; for (; again < 3 && !same; ++again) { int r = replayChild(c, badWhy == 3 ? 240 : 120, rkey, rmsg, trace); if (r == 1 || r == 3) same = true; }
		if (badWhy == 2) { std::printf("ENGINE-ERROR property=%s job=%s %s\n", g_prop.c_str(), c.job.c_str(), c.msg.c_str()); rc = 2; }
		else if (!same && badWhy == 3) { std::printf("note: a worker stalled on %s but the execution completes when run alone; not reported\n", c.job.c_str()); rc = 2; }
		else
		{
			std::string kf = "crash:" + c.job;
			if (!w.violated && g_known.count(kf)) { std::printf("KNOWN-FINDING: property=%s %s\n", g_prop.c_str(), kf.c_str()); }
			std::string path = replayDir + "/" + g_prop + "-" + std::to_string(hash(c.job + c.key + std::to_string(c.choices.size())) & 0xffffff) + ".replay"; std::ofstream f(path);
			f << "property=" << g_prop << "\njob=" << c.job << "\nchoices="; for (int v : c.choices) f << v << " "; f << "\nkey=" << c.key << "\nmessage=" << c.msg << "\nreproduced=" << (same ? "yes" : "no, seen once") << " (" << rkey << ": " << rmsg << ")\ntrace:\n" << trace << "\n"; f.close();
			std::printf("%s [%s] %s\n  %s\n%s", g_prop.c_str(), c.key.c_str(), c.job.c_str(), c.msg.substr(0, 1500).c_str(), trace.substr(0, 2500).c_str());
			std::printf("VIOLATION property=%s replay=%s\n", g_prop.c_str(), path.c_str()); rc = 1;
		}
	}
	uint64_t ex = 0, tr = 0, stt = 0, oc = 0, md = 0, inf = 0, ch = 0; std::set<std::string> kn; std::vector<std::string> samples;
	for (int i = 0; i < nw; ++i) { auto& w = S->w[i]; ex += w.execs; tr += w.trans; stt += w.states; oc += w.outcomes; md = std::max(md, (uint64_t)w.maxDepth); inf += w.infeasible; ch += w.choices; for (int k = 0; k < w.nknown; ++k) kn.insert(w.known[k]); for (int k = 0; k < w.nsample && samples.size() < 6; ++k) samples.push_back(w.sample[k]); if (i != bad) unlink(errf[(size_t)i].c_str()); else unlink(errf[(size_t)i].c_str()); }
	for (auto& k : kn) std::printf("KNOWN-FINDING: property=%s %s\n", g_prop.c_str(), k.c_str());
	uint32_t done = S->done.load(); bool exhaustive = rc == 0 && done == order.size() && !capped;
	if (!evid.empty())
	{
		std::ofstream f(evid); f << "{\n \"property\": \"" << g_prop << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << g_seed << ",\n \"level\": \"model_checking\",\n \"coverage\": {\n  \"states\": " << stt << ",\n  \"transitions\": " << tr << ",\n  \"traces_validated_against_impl\": " << ex << ",\n  \"choice_points\": " << ch << ",\n  \"distinct_outcomes\": " << oc << ",\n  \"deepest_choice_sequence\": " << md << ",\n  \"discarded_infeasible\": " << inf << ",\n  \"jobs\": " << order.size() << ",\n  \"jobs_completed\": " << done << ",\n  \"exhaustive\": " << (exhaustive ? "true" : "false") << ",\n  \"bounds\": \"" << esc(g_bounds) << "\",\n  \"explanation\": \"every execution is a run of the implementation compiled from /repo; 'exhaustive' means every choice sequence within the stated bounds was run" << (capped ? "; the time budget was hit, the listed number of jobs was completed" : "") << "\",\n  \"samples\": [";
		for (size_t i = 0; i < samples.size(); ++i) f << (i ? ",\n   " : "\n   ") << "\"" << esc(samples[i]) << "\""; f << "\n  ]\n },\n \"assumptions\": ["; for (size_t i = 0; i < g_assume.size(); ++i) f << (i ? ", " : "") << "\"" << esc(g_assume[i]) << "\""; f << "],\n \"wall_s\": " << (now() - t0) << ",\n \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
	}
	std::printf("%s %s: jobs %u/%zu executions %llu transitions %llu states %llu outcomes %llu depth %llu %s %.1fs\n", g_prop.c_str(), tier.c_str(), done, order.size(), (unsigned long long)ex, (unsigned long long)tr, (unsigned long long)stt, (unsigned long long)oc, (unsigned long long)md, exhaustive ? "exhaustive" : "NOT exhaustive", now() - t0);
	return rc;
}
