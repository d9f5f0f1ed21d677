#include "mc.h"
#include "sched.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <set>
#include <vector>
#include <cxxabi.h>
using __cxxabiv1::__guard;
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace
{
	const int MAXT = 32;
	long raw(long n, long a, long b, long c, long d, long e, long f)
	{
		long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
		asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory"); return r;
	}
	struct Masks { uintptr_t line; uint64_t r, w; uintptr_t rpc, wpc; };
	struct Seg
	{
		int tid; uint32_t clk; uint32_t vc[MAXT]; std::vector<Masks> tab; size_t used = 0;
		Masks& get(uintptr_t line)
		{
			if (tab.empty()) tab.assign(256, Masks{ 0, 0, 0, 0, 0 });
			if (used * 2 >= tab.size()) { std::vector<Masks> o(tab.size() * 4, Masks{ 0, 0, 0, 0, 0 }); o.swap(tab); for (auto& m : o) if (m.line) slot(m.line) = m; }
			Masks& m = slot(line); if (!m.line) { m.line = line; ++used; } return m;
		}
		Masks& slot(uintptr_t line) { size_t k = (size_t)((line >> 6) * 0x9E3779B97F4A7C15ULL >> 20) & (tab.size() - 1); while (tab[k].line && tab[k].line != line) k = (k + 1) & (tab.size() - 1); return tab[k]; }
	};
	struct Th
	{
		int id; int go = 0; bool done = false, blocked = false, detached = false, joined = false; std::function<bool()> ready; const char* what = ""; pthread_t real{}; void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr;
		uint32_t vc[MAXT]; Seg* seg = nullptr; uintptr_t lastLine = 0; Masks* last = nullptr; int ignore = 0; int run = 0;
	};
	struct Sync { uint32_t vc[MAXT]; };
	struct Mx { int owner = -1; int depth = 0; int readers = 0; uint32_t vc[MAXT] = {}; };
	struct Cv { std::vector<Th*> waiting; };
	bool g_on = false; std::vector<Th*> g_th; Th* g_cur = nullptr; std::vector<Seg*> g_segs; int g_max = 20000; uint64_t g_steps = 0, g_acc = 0; int g_aliveN = 0;
	std::map<uintptr_t, Mx>* g_mx; std::map<uintptr_t, Cv>* g_cv; std::map<uintptr_t, Sync>* g_sync; std::map<uintptr_t, std::vector<std::pair<Th*, bool*>>>* g_fx; std::map<uintptr_t, int>* g_once; std::vector<void*>* g_freed; size_t g_freedBytes = 0;
	thread_local Th* t_me = nullptr; thread_local int t_in = 0;
	uintptr_t g_lo = 0, g_hi = 0;
	extern "C" char __executable_start, etext;
	bool mine(void* pc) { return (uintptr_t)pc >= g_lo && (uintptr_t)pc < g_hi; }
	struct In { In() { ++t_in; } ~In() { --t_in; } };
	bool on() { return g_on && t_me && !t_in; }
	template <class F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(name, ...) static decltype(&::name) r_##name = nullptr; if (!r_##name) r_##name = real<decltype(&::name)>(#name)

	void newSeg(Th* t) { t->last = nullptr; t->lastLine = 0; if (t->seg && t->seg->used == 0) { t->seg->clk = t->vc[t->id]; std::memcpy(t->seg->vc, t->vc, sizeof t->vc); return; } Seg* s = new Seg; s->tid = t->id; s->clk = t->vc[t->id]; std::memcpy(s->vc, t->vc, sizeof t->vc); g_segs.push_back(s); t->seg = s; }
	bool join(uint32_t* a, const uint32_t* b) { bool ch = false; for (int i = 0; i < MAXT; ++i) if (b[i] > a[i]) { a[i] = b[i]; ch = true; } return ch; }
	void acq(Th* t, const uint32_t* v) { if (join(t->vc, v)) newSeg(t); }
	void rel(Th* t, uint32_t* v, bool replace = false) { if (replace) std::memcpy(v, t->vc, sizeof t->vc); else join(v, t->vc); ++t->vc[t->id]; newSeg(t); }
	void waitGo(Th* t) { while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) raw(SYS_futex, (long)&t->go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); t->go = 0; }
	void wake(Th* t) { g_cur = t; __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE); raw(SYS_futex, (long)&t->go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
	bool enabled(Th* t) { if (t->done) return false; if (!t->blocked) return true; return t->ready(); }
	[[noreturn]] void dead(const char* key, const char* why)
	{
		std::string m = why; for (auto t : g_th) if (!t->done) { m += "; thread " + std::to_string(t->id) + (t->blocked ? std::string(" waits for ") + t->what : std::string(" runs")); } mc::fatal(key, m.c_str());
	}
	void switchTo(Th* me, Th* to) { if (me == to) return; mc::note("thread %d -> %d", me->id, to->id); me->run = 0; wake(to); waitGo(me); }
	void step() { mc::transition(); if (++g_steps > (uint64_t)g_max) dead("livelock", "no end after the step limit"); }
	int dev(int n) { try { return mc::deviate(n); } catch (...) { mc::fatal("engine:diverged", "the schedule could not be followed again"); } }
	/* the others, in order of their number after mine */
	std::vector<Th*> others(Th* me) { std::vector<Th*> v; size_t n = g_th.size(); for (size_t i = 1; i < n; ++i) { Th* t = g_th[((size_t)me->id + i) % n]; if (enabled(t)) v.push_back(t); } return v; }
	void doPoint()
	{
		In in; Th* me = t_me; step(); if (g_aliveN < 2) return; std::vector<Th*> v = others(me); if (v.empty()) return;
		if (++me->run > 400) { me->run = 0; switchTo(me, v[0]); return; }
		int k = dev((int)v.size() + 1); if (k) switchTo(me, v[(size_t)k - 1]);
	}
	void doYield() { In in; Th* me = t_me; step(); std::vector<Th*> v = others(me); if (v.empty()) return; int k = dev((int)v.size() + 1); if (k < (int)v.size()) switchTo(me, v[(size_t)k]); }
	void doBlock(const std::function<bool()>& ready, const char* what)
	{
		In in; Th* me = t_me; if (ready()) return; me->ready = ready; me->what = what; me->blocked = true;
		while (!ready())
		{
			step(); std::vector<Th*> v = others(me); if (v.empty()) { if (ready()) break; dead("deadlock", "no thread can run"); }
			int k = dev((int)v.size()); switchTo(me, v[(size_t)k]);
		}
		me->blocked = false;
	}
	void finish(Th* me)
	{
		In in; me->done = true; --g_aliveN; ++me->vc[me->id]; std::vector<Th*> v = others(me); if (v.empty()) { bool left = false; for (auto t : g_th) if (!t->done) left = true; if (left) dead("deadlock", "no thread can run"); }
		else { int k = dev((int)v.size()); wake(v[(size_t)k]); }
	}
	void* trampoline(void* p) { Th* t = (Th*)p; t_me = t; waitGo(t); void* r = t->fn(t->arg); t->ret = r; finish(t); for (;;) raw(SYS_pause, 0, 0, 0, 0, 0, 0); return nullptr; }

	void access(const void* a, size_t n, bool w, void* pc)
	{
		Th* t = t_me; if (!g_on || !t || t_in || t->ignore || !n) return; uintptr_t p = (uintptr_t)a; ++g_acc;
		while (n)
		{
			uintptr_t line = p & ~(uintptr_t)63; size_t off = p & 63, k = std::min(n, 64 - off); uint64_t m = (k == 64 ? ~0ULL : ((1ULL << k) - 1)) << off;
			if (line != t->lastLine) { ++t_in; t->last = &t->seg->get(line); --t_in; t->lastLine = line; }
			Masks& s = *t->last; if (w) { if (!s.w) s.wpc = (uintptr_t)pc; s.w |= m; } else { if (!s.r) s.rpc = (uintptr_t)pc; s.r |= m; }
			p += k; n -= k;
		}
	}
	std::string where(uintptr_t pc)
	{
		Dl_info i; if (pc && dladdr((void*)pc, &i) && i.dli_sname) { int st; char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st); std::string s = st == 0 ? d : i.dli_sname; if (s.size() > 160) s.resize(160); return s; } return "?";
	}
	Mx& mxOf(void* m) { return (*g_mx)[(uintptr_t)m]; }
	void lockMx(void* m, bool rec)
	{
		In in; Th* me = t_me; Mx& x = mxOf(m); if (x.owner == me->id) { if (rec) { ++x.depth; return; } dead("deadlock", "a thread locks a mutex that it holds"); }
		--t_in; doBlock([&x] { return x.owner < 0 && x.readers == 0; }, "a mutex"); ++t_in; x.owner = me->id; x.depth = 1; acq(me, x.vc);
	}
	void unlockMx(void* m) { In in; Mx& x = mxOf(m); if (x.owner != t_me->id) dead("mutex", "a thread unlocks a mutex that it does not hold"); if (--x.depth == 0) { x.owner = -1; rel(t_me, x.vc); } }
	int condWait(void* c, void* m, bool timed)
	{
		doPoint(); Th* me = t_me; bool woken = false; int res = 0;
		{
			In in; bool spur = sched::spurious && dev(2) == 1; Cv& v = (*g_cv)[(uintptr_t)c]; if (mxOf(m).owner != me->id) dead("mutex", "a wait without its mutex"); v.waiting.push_back(me); unlockMx(m);
			if (spur) { --t_in; doYield(); ++t_in; auto& w = v.waiting; auto it = std::find(w.begin(), w.end(), me); if (it != w.end()) w.erase(it); }
			else
			{
				--t_in; doBlock([&] { auto& w = v.waiting; if (std::find(w.begin(), w.end(), me) == w.end()) { woken = true; return true; } if (timed) { for (auto t : g_th) if (t != me && !t->done && !(t->blocked && (t->what[0] == '~' || !t->ready()))) return false; return true; } return false; }, timed ? "~a condition, for a time" : "a condition"); ++t_in;
				if (!woken) { auto& w = v.waiting; auto it = std::find(w.begin(), w.end(), me); if (it != w.end()) w.erase(it); res = ETIMEDOUT; }
			}
		}
		lockMx(m, false); return res;
	}
	void addFree(void* p) { ++t_in; g_freed->push_back(p); g_freedBytes += malloc_usable_size(p); --t_in; }
}

namespace sched
{
	std::function<bool()> createFails; bool races = true, spurious = false, allowLeft = false;
	bool active() { return g_on; }
	void begin(int delays, int maxSteps)
	{
		g_lo = (uintptr_t)&__executable_start; g_hi = (uintptr_t)&etext; createFails = nullptr; spurious = allowLeft = false; races = true; g_segs.clear();
		g_mx = new std::map<uintptr_t, Mx>; g_cv = new std::map<uintptr_t, Cv>; g_sync = new std::map<uintptr_t, Sync>; g_fx = new std::map<uintptr_t, std::vector<std::pair<Th*, bool*>>>; g_once = new std::map<uintptr_t, int>; g_freed = new std::vector<void*>;
		g_max = maxSteps; g_steps = g_acc = 0; Th* t = new Th; t->id = 0; std::memset(t->vc, 0, sizeof t->vc); t->vc[0] = 1; g_th.assign(1, t); g_aliveN = 1; t_me = t; g_cur = t; newSeg(t); mc::setDeviations(delays); g_on = true;
	}
	void end()
	{
		if (!g_on) return; In in; g_on = false; uint64_t left = 0; for (auto t : g_th) if (t->id && !t->done) ++left;
		if (left && !allowLeft) dead("thread-left", "a thread still runs when the call is over");
		if (races)
		{
			struct E { Seg* s; Masks* m; }; std::map<uintptr_t, std::vector<E>> by; for (auto s : g_segs) for (auto& m : s->tab) if (m.line) by[m.line].push_back(E{ s, &m });
			for (auto& l : by) { auto& v = l.second; if (v.size() < 2) continue; for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j)
			{
				Seg *a = v[i].s, *b = v[j].s; if (a->tid == b->tid) continue; Masks *x = v[i].m, *y = v[j].m; uint64_t ww = x->w & y->w, rw = x->r & y->w, wr = x->w & y->r; if (!(ww | rw | wr)) continue;
				if (b->vc[a->tid] >= a->clk || a->vc[b->tid] >= b->clk) continue;
				std::string m = std::string("two threads use the same byte and nothing orders them: thread ") + std::to_string(a->tid) + ((ww | wr) ? " writes in " : " reads in ") + where((ww | wr) ? x->wpc : x->rpc) + ", thread " + std::to_string(b->tid) + ((ww | rw) ? " writes in " : " reads in ") + where((ww | rw) ? y->wpc : y->rpc);
				mc::fatal("conflict", m.c_str());
			} }
		}
	}
	void point() { if (on()) doPoint(); }
	void yield() { if (on()) doYield(); }
	void block(const std::function<bool()>& r, const char* what) { if (on()) doBlock(r, what); }
	int self() { return t_me ? t_me->id : -1; }
	int alive() { return g_aliveN; }
	uint64_t steps() { return g_steps; } uint64_t accesses() { return g_acc; }
	void acquire(const void* o) { if (on()) { In in; acq(t_me, (*g_sync)[(uintptr_t)o].vc); } }
	void release(const void* o) { if (on()) { In in; rel(t_me, (*g_sync)[(uintptr_t)o].vc); } }
	Ignore::Ignore() { if (t_me) ++t_me->ignore; } Ignore::~Ignore() { if (t_me) --t_me->ignore; }
}
/* vector loads and stores that the compiler's instrumentation leaves out (see prelude.h) */
extern "C" void cex_vread(const void* p, unsigned n) { access(p, n, false, __builtin_return_address(0)); }
extern "C" void cex_vwrite(const void* p, unsigned n) { access(p, n, true, __builtin_return_address(0)); }

extern "C"
{
	/* ---------------- threads */
	int pthread_create(pthread_t* o, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
	{
		REAL(pthread_create, int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)); if (!on()) return r_pthread_create(o, a, fn, arg);
		{
			In in; if (sched::createFails && sched::createFails()) return EAGAIN; if (g_th.size() >= (size_t)MAXT) dead("threads", "too many threads");
			Th* t = new Th; t->id = (int)g_th.size(); t->fn = fn; t->arg = arg; std::memcpy(t->vc, t_me->vc, sizeof t->vc); t->vc[t->id] = 1; g_th.push_back(t); ++g_aliveN; newSeg(t); ++t_me->vc[t_me->id]; newSeg(t_me);
			if (int r = r_pthread_create(&t->real, a, trampoline, t)) return r; *o = t->real;
		}
		doPoint(); return 0;
	}
	int pthread_join(pthread_t p, void** ret)
	{
		REAL(pthread_join, int (*)(pthread_t, void**)); if (!on()) return g_th.empty() ? r_pthread_join(p, ret) : 0;
		Th* t = nullptr; { In in; for (auto x : g_th) if (x->id && pthread_equal(x->real, p)) t = x; if (!t || t->joined || t->detached) dead("join", "a thread is joined that can not be"); if (t == t_me) dead("deadlock", "a thread joins itself"); }
		doBlock([t] { return t->done; }, "the end of a thread"); In in; t->joined = true; acq(t_me, t->vc); if (ret) *ret = t->ret; return 0;
	}
	int pthread_detach(pthread_t p) { REAL(pthread_detach, int (*)(pthread_t)); if (!on()) return r_pthread_detach(p); In in; for (auto x : g_th) if (x->id && pthread_equal(x->real, p)) x->detached = true; return 0; }
	int sched_yield() { if (on()) doYield(); return 0; }
	int nanosleep(const timespec* a, timespec* b) { if (on()) { doYield(); return 0; } return (int)raw(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0); }
	int clock_nanosleep(clockid_t c, int f, const timespec* a, timespec* b) { if (on()) { doYield(); return 0; } return -(int)raw(SYS_clock_nanosleep, c, f, (long)a, (long)b, 0, 0); }
	int usleep(useconds_t u) { if (on()) { doYield(); return 0; } timespec t{ (time_t)(u / 1000000), (long)(u % 1000000) * 1000 }; raw(SYS_nanosleep, (long)&t, 0, 0, 0, 0, 0); return 0; }
	/* ---------------- mutexes, conditions, once */
	int pthread_mutex_lock(pthread_mutex_t* m) { REAL(pthread_mutex_lock, int (*)(pthread_mutex_t*)); if (!on()) return t_in || g_on ? 0 : r_pthread_mutex_lock(m); doPoint(); lockMx(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP); return 0; }
	int pthread_mutex_trylock(pthread_mutex_t* m) { REAL(pthread_mutex_trylock, int (*)(pthread_mutex_t*)); if (!on()) return t_in || g_on ? 0 : r_pthread_mutex_trylock(m); doPoint(); { In in; Mx& x = mxOf(m); if (x.owner == t_me->id && m->__data.__kind != PTHREAD_MUTEX_RECURSIVE_NP) return EBUSY; if (x.owner >= 0 && x.owner != t_me->id) return EBUSY; } lockMx(m, true); return 0; }
	int pthread_mutex_unlock(pthread_mutex_t* m) { REAL(pthread_mutex_unlock, int (*)(pthread_mutex_t*)); if (!on()) return t_in || g_on ? 0 : r_pthread_mutex_unlock(m); unlockMx(m); return 0; }
	int pthread_mutex_destroy(pthread_mutex_t* m) { if (on()) { In in; auto i = g_mx->find((uintptr_t)m); if (i != g_mx->end()) { if (i->second.owner >= 0) dead("mutex", "a locked mutex is destroyed"); g_mx->erase(i); } } return 0; }
	static int rw(pthread_rwlock_t* m, bool w, bool tr) { doPoint(); Mx* x; { In in; x = &mxOf(m); if (tr && (x->owner >= 0 || (w && x->readers))) return EBUSY; if (x->owner == t_me->id) dead("deadlock", "a thread locks what it holds"); } doBlock([x, w] { return x->owner < 0 && (!w || x->readers == 0); }, "a reader-writer lock"); In in; if (w) { x->owner = t_me->id; x->depth = 1; } else ++x->readers; acq(t_me, x->vc); return 0; }
	int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return on() ? rw(m, false, false) : 0; } int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return on() ? rw(m, true, false) : 0; }
	int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return on() ? rw(m, false, true) : 0; } int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return on() ? rw(m, true, true) : 0; }
	int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (on()) { In in; Mx& x = mxOf(m); if (x.owner == t_me->id) x.owner = -1; else --x.readers; rel(t_me, x.vc); } return 0; }
	int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!on()) return 0; return condWait(c, m, false); }
	int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec*) { if (!on()) return ETIMEDOUT; return condWait(c, m, true); }
	int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec*) { if (!on()) return ETIMEDOUT; return condWait(c, m, true); }
	int pthread_cond_signal(pthread_cond_t* c) { if (!on()) return 0; doPoint(); In in; auto& w = (*g_cv)[(uintptr_t)c].waiting; if (!w.empty()) { int k = dev((int)w.size()); w.erase(w.begin() + k); } return 0; }
	int pthread_cond_broadcast(pthread_cond_t* c) { if (!on()) return 0; doPoint(); In in; (*g_cv)[(uintptr_t)c].waiting.clear(); return 0; }
	int pthread_cond_destroy(pthread_cond_t* c) { if (on()) { In in; auto i = g_cv->find((uintptr_t)c); if (i != g_cv->end()) { if (!i->second.waiting.empty()) dead("condition", "a condition is destroyed while a thread waits for it"); g_cv->erase(i); } } return 0; }
	int pthread_once(pthread_once_t* o, void (*f)())
	{
		REAL(pthread_once, int (*)(pthread_once_t*, void (*)())); if (!on()) return r_pthread_once(o, f); if (*o == 2) { In in; acq(t_me, (*g_sync)[(uintptr_t)o].vc); return 0; }
		doPoint(); volatile int* s = o; doBlock([s] { return *s != 1; }, "an initialisation"); if (*s == 2) { In in; acq(t_me, (*g_sync)[(uintptr_t)o].vc); return 0; }
		*s = 1; try { f(); } catch (...) { *s = 0; throw; } { In in; rel(t_me, (*g_sync)[(uintptr_t)o].vc); } *s = 2; return 0;
	}
	/* guards of function-local statics: byte 0 done, byte 1 in progress */
	int __cxxabiv1::__cxa_guard_acquire(__guard* g)
	{
		volatile uint8_t* b = (volatile uint8_t*)g; if (!on()) { if (b[0]) return 0; b[1] = 1; return 1; }
		doPoint(); doBlock([b] { return b[0] || !b[1]; }, "the initialisation of a static"); if (b[0]) { In in; acq(t_me, (*g_sync)[(uintptr_t)g].vc); return 0; } b[1] = 1; return 1;
	}
	void __cxxabiv1::__cxa_guard_release(__guard* g) { volatile uint8_t* b = (volatile uint8_t*)g; if (on()) { In in; rel(t_me, (*g_sync)[(uintptr_t)g].vc); } b[1] = 0; b[0] = 1; }
	void __cxxabiv1::__cxa_guard_abort(__guard* g) { volatile uint8_t* b = (volatile uint8_t*)g; b[1] = 0; }
	/* libstdc++ waits for futures on futexes */
	long syscall(long n, ...)
	{
		va_list v; va_start(v, n); long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), f = va_arg(v, long); va_end(v);
		if (n == SYS_futex && on())
		{
			int op = (int)b & FUTEX_CMD_MASK; volatile int* p = (volatile int*)a;
			if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) { int val = (int)c; bool timed = d != 0; doPoint(); if (*p != val) { errno = EAGAIN; return -1; } bool w = false; { In in; (*g_fx)[(uintptr_t)p].push_back({ t_me, &w }); } doBlock([&] { if (w || *p != val) return true; if (!timed) return false; for (auto t : g_th) if (t != t_me && !t->done && !(t->blocked && (t->what[0] == '~' || !t->ready()))) return false; return true; }, timed ? "~a result, for a time" : "a result"); In in; auto& l = (*g_fx)[(uintptr_t)p]; for (size_t i = 0; i < l.size(); ++i) if (l[i].second == &w) { l.erase(l.begin() + (long)i); break; } if (!w && *p == val) { errno = ETIMEDOUT; return -1; } return 0; }
			if (op == FUTEX_WAKE) { In in; auto& l = (*g_fx)[(uintptr_t)p]; int k = 0; for (auto& x : l) if (k < (int)c) { *x.second = true; ++k; } l.clear(); return k; }
		}
		long r = raw(n, a, b, c, d, e, f); if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r;
	}
	/* ---------------- memory that is given back is not used again while threads run: its next owner would not be ordered after the last one */
	void __libc_free(void*);
	void free(void* p) { if (p && g_on && t_me && !t_in && g_th.size() > 1) { addFree(p); return; } __libc_free(p); }
	/* ---------------- the compiler's hooks */
	void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false, __builtin_return_address(0)); } void __tsan_write##n(void* p) { access(p, n, true, __builtin_return_address(0)); } \
	void __tsan_unaligned_read##n(void* p) { access(p, n, false, __builtin_return_address(0)); } void __tsan_unaligned_write##n(void* p) { access(p, n, true, __builtin_return_address(0)); } \
	void __tsan_read_write##n(void* p) { access(p, n, false, __builtin_return_address(0)); access(p, n, true, __builtin_return_address(0)); } void __tsan_unaligned_read_write##n(void* p) { access(p, n, false, __builtin_return_address(0)); access(p, n, true, __builtin_return_address(0)); }
	RW(1) RW(2) RW(4) RW(8) RW(16)
	void __tsan_read_range(void* p, size_t n) { access(p, n, false, __builtin_return_address(0)); } void __tsan_write_range(void* p, size_t n) { access(p, n, true, __builtin_return_address(0)); }
	void __tsan_vptr_update(void** p, void*) { access(p, 8, true, __builtin_return_address(0)); } void __tsan_vptr_read(void** p) { access(p, 8, false, __builtin_return_address(0)); }
	void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, false, __builtin_return_address(0)); access(d, n, true, __builtin_return_address(0)); return std::memcpy(d, s, n); }
	void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, false, __builtin_return_address(0)); access(d, n, true, __builtin_return_address(0)); return std::memmove(d, s, n); }
	void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true, __builtin_return_address(0)); return std::memset(d, c, n); }
	/* one call is one step of the program; the memory order decides what it publishes */
	static bool isAcq(int o) { return o == __ATOMIC_ACQUIRE || o == __ATOMIC_CONSUME || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; } static bool isRel(int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
	static void pre(int o) { if (on() && o != __ATOMIC_ACQ_REL) doPoint(); }
	static void post(const volatile void* p, int o, bool ld, bool st) { if (!on()) return; In in; Sync& s = (*g_sync)[(uintptr_t)p]; if (ld && isAcq(o)) acq(t_me, s.vc); if (st) { if (isRel(o)) rel(t_me, s.vc, !ld); else if (!ld) { std::memset(s.vc, 0, sizeof s.vc); } } }
#define AT(N, T) \
	T __tsan_atomic##N##_load(const volatile T* p, int o) { pre(o); T v = __atomic_load_n(p, __ATOMIC_SEQ_CST); post(p, o, true, false); return v; } \
	void __tsan_atomic##N##_store(volatile T* p, T v, int o) { pre(o); post(p, o, false, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_exchange(volatile T* p, T v, int o) { pre(o); post(p, o, true, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int o) { pre(o); post(p, o, true, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int o) { pre(o); post(p, o, true, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int o) { pre(o); post(p, o, true, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int o) { pre(o); post(p, o, true, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int o) { pre(o); post(p, o, true, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int o, int fo) { pre(o); T x = *e; bool r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); (void)x; post(p, r ? o : fo, true, r); return r; } \
	int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int o, int fo) { return __tsan_atomic##N##_compare_exchange_strong(p, e, v, o, fo); } \
	T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int o, int fo) { __tsan_atomic##N##_compare_exchange_strong(p, &e, v, o, fo); return e; }
	AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
	void __tsan_atomic_thread_fence(int) { if (on()) { In in; static char f; Sync& s = (*g_sync)[(uintptr_t)&f]; acq(t_me, s.vc); rel(t_me, s.vc); } } void __tsan_atomic_signal_fence(int) {}
}
void operator delete(void* p) noexcept { if (!p) return; if (g_on && t_me && !t_in && mine(__builtin_return_address(0)) && g_th.size() > 1) { size_t n = malloc_usable_size(p); access(p, n < 4096 ? n : 4096, true, __builtin_return_address(0)); } free(p); }
void operator delete(void* p, size_t n) noexcept { if (!p) return; if (g_on && t_me && !t_in && mine(__builtin_return_address(0)) && g_th.size() > 1) access(p, n < 4096 ? n : 4096, true, __builtin_return_address(0)); free(p); }
void operator delete[](void* p) noexcept { operator delete(p); } void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); } void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); } void operator delete[](void* p, std::align_val_t) noexcept { free(p); } void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
