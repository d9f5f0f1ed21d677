// MC-VARIANT: tsan
// MC-SOURCES: mc/sched.cpp
// MC-TECHNIQUE: stateless model checking of the implementation under a controlled scheduler: every schedule of small closed programs over the parallel loop, the thread pool and the events up to a number of departures from the default order, with task failures and refused threads at every position; deadlocks, lost tasks and conflicting accesses are decided in each schedule
// Parallel loops, thread pools and events complete every task exactly once.
#include "checks/common.h"
#include "mc/sched.h"
#include "ParallelTools.h"
#include "ThreadPool.h"
#include "EventHandler.h"
#include "Event.h"
#include "ParallelCallback.h"
#include <algorithm>
#include <future>
#include <set>
#include <thread>
using Tools::ParallelTools; using CEX::ThreadPool; using CEX::ParallelCallback;
const char* const MC_PROPERTY = "C17";
struct Failed { int index; };

namespace
{
	int D(int q, int t) { return mc::thorough() ? t : q; }
	/* each task marks a cell of its own: a task that runs twice on two threads, or is still running when it should be over, is also a conflict */
	struct Cells
	{
		int ran[16] = {}, done[16] = {};
		void task(int i, bool fail) { ++ran[i]; sched::point(); if (fail) { ++done[i]; throw Failed{ i }; } ++done[i]; }
		void exactly(int from, int to, const char* when) { for (int i = 0; i < 16; ++i) { int want = i >= from && i < to ? 1 : 0; MC_CHECK(ran[i] == want, "task-count", "%s: task %d ran %d times, not %d", when, i, ran[i], want); MC_CHECK(done[i] == want, "task-unfinished", "%s: task %d is not finished", when, i); } }
	};
	void finishRun(uint64_t obs) { sched::end(); mc::outcome(mc::combine(obs, sched::steps() > 0)); }

	/* ------------------------------------------------------------------ parallel loops */
	void loopJob(int from, int n, int delays)
	{
		mc::job("for/" + std::to_string(from) + "+" + std::to_string(n), [=]
		{
			unsigned failing = (unsigned)mc::choose(1 << n); int refuse = mc::choose(n + 2);   /* no thread refused, one, or all of them */
			sim::cpu.logical = mc::flip() ? 1 : 4;
			Cells c; std::set<int> bad; for (int i = 0; i < n; ++i) if (failing >> i & 1) bad.insert(from + i);
			sched::begin(delays); int created = 0; sched::createFails = [&] { ++created; return refuse == n + 1 || created == refuse; };
			int caught = -1; bool any = false, other = false;
			try { ParallelTools::ParallelFor((size_t)from, (size_t)(from + n), [&c, bad](size_t i) { c.task((int)i, bad.count((int)i) != 0); }); }
			catch (Failed& f) { any = true; caught = f.index; } catch (...) { other = true; }
			MC_OP("loop over %d..%d, failing %x, refused %d: %s", from, from + n, failing, refuse, any ? "threw" : "returned");
			c.exactly(from, from + n, "parallel loop"); MC_CHECK(!other, "loop-exception", "another exception came out of the loop"); MC_CHECK(any == !bad.empty(), any ? "loop-threw" : "loop-lost-failure", "%zu tasks failed and the loop %s", bad.size(), any ? "threw" : "returned normally"); if (any) MC_CHECK(bad.count(caught), "loop-exception", "the exception of task %d, which did not fail", caught);
			finishRun((uint64_t)any * 100 + (uint64_t)(caught + 1));
		});
	}
	void registerLoops()
	{
		for (int n = 0; n <= 3; ++n) loopJob(0, n, D(n < 3 ? 2 : 1, n < 3 ? 4 : 2)); loopJob(3, 2, D(2, 3)); if (mc::thorough()) loopJob(1, 4, 1);
		mc::job("for/many", [] { int n = 5 + mc::choose(8), bad = mc::choose(n + 1) - 1; static const uint32_t L[] = { 1, 2, 4, 64 }; sim::cpu.logical = L[mc::choose(4)]; Cells c; sched::begin(0); bool any = false; try { ParallelTools::ParallelFor(0, (size_t)n, [&c, bad](size_t i) { c.task((int)i, (int)i == bad); }); } catch (Failed& f) { any = f.index == bad; } MC_OP("loop over 0..%d on %u processors, failing %d", n, sim::cpu.logical, bad); c.exactly(0, n, "a long loop"); MC_CHECK(any == (bad >= 0), "loop-lost-failure", "the failure of task %d is %s", bad, any ? "invented" : "lost"); finishRun((uint64_t)n); });
		mc::job("for/empty-range", [] { Cells c; sched::begin(1); size_t to = (size_t)mc::choose(3); ParallelTools::ParallelFor(2, to, [&](size_t i) { c.task((int)i, false); }); c.exactly(0, 0, "an empty range"); MC_OP("loop over 2..%zu", to); finishRun(to); });
		mc::job("for/nested", []
		{
			int bad = mc::choose(5) - 1; Cells c; sched::begin(D(1, 2)); bool any = false;
			try { ParallelTools::ParallelFor(0, 2, [&](size_t i) { ParallelTools::ParallelFor(0, 2, [&c, i, bad](size_t j) { int k = (int)(i * 2 + j); c.task(k, k == bad); }); }); } catch (Failed&) { any = true; }
			MC_OP("nested loops, failing %d", bad); c.exactly(0, 4, "nested loops"); MC_CHECK(any == (bad >= 0), "loop-lost-failure", "the failure of the inner task was %s", any ? "invented" : "lost"); finishRun((uint64_t)bad + 1);
		});
		mc::job("for/two-callers", []
		{
			Cells c; int bad = mc::choose(5) - 1; sched::begin(D(1, 2)); bool any[2] = {};
			auto half = [&](int o) { try { ParallelTools::ParallelFor((size_t)o, (size_t)o + 2, [&c, bad](size_t i) { c.task((int)i, (int)i == bad); }); } catch (Failed&) { any[o / 2] = true; } };
			std::thread t([&] { half(0); }); half(2); t.join(); MC_OP("two loops on two threads, failing %d", bad); c.exactly(0, 4, "two loops"); MC_CHECK(any[0] == (bad == 0 || bad == 1) && any[1] == (bad >= 2), "loop-lost-failure", "a failure reached the wrong caller"); finishRun((uint64_t)bad + 1);
		});
		mc::job("for/results-visible", []
		{
			/* what the tasks wrote is read after the loop with nothing else to order it */
			int n = 2 + mc::choose(2); std::vector<int> v((size_t)n, 0); sched::begin(2); ParallelTools::ParallelFor(0, (size_t)n, [&](size_t i) { sched::point(); v[i] = (int)i + 7; }); int s = 0; for (int x : v) s += x; MC_OP("sum %d", s); MC_CHECK(s == n * 7 + n * (n - 1) / 2, "loop-result", "results %d", s); finishRun((uint64_t)s);
		});
		mc::job("task", []
		{
			bool bad = mc::flip(); Cells c; sched::begin(3); bool any = false; try { ParallelTools::ParallelTask([&] { c.task(0, bad); }); } catch (Failed&) { any = true; }
			MC_OP("one task"); c.exactly(0, 1, "a parallel task"); MC_CHECK(any == bad, "loop-lost-failure", "failure %d, thrown %d", (int)bad, (int)any); finishRun(bad);
		});
		mc::job("callback", []
		{
			/* the final callback runs once, after every part */
			int n = 1 + mc::choose(3); sched::begin(D(2, 3)); std::atomic<int> parts(0), fin(0), early(0); { ParallelCallback pc([&] { if (parts.load() != n) ++early; ++fin; }); std::vector<CEX::Callback> cb; for (int i = 0; i < n; ++i) cb.push_back((CEX::Callback)pc); std::vector<std::thread> t; for (int i = 0; i < n; ++i) t.emplace_back([&, i] { ++parts; cb[(size_t)i](); }); pc.check(); for (auto& x : t) x.join(); }
			MC_OP("%d parts", n); MC_CHECK(fin == 1, "callback-count", "the final callback ran %d times", fin.load()); MC_CHECK(early == 0, "callback-early", "the final callback ran before all the parts"); finishRun((uint64_t)n);
		});
		mc::job("callback/async-call", [] { Cells c; sched::begin(3); { ParallelCallback pc([] {}); pc.AsyncCall([&] { c.task(0, false); }); } while (c.done[0] == 0 && sched::alive() > 1) sched::yield(); MC_OP("asynchronous call"); c.exactly(0, 1, "an asynchronous call"); finishRun(1); });
	}

	/* ------------------------------------------------------------------ the pool */
	enum Ending { WaitThenEnd, JoinAllWait, JoinAllNow, JustEnd, WaitWait, Reuse, ENDINGS };
	const char* endingName(int e) { static const char* n[] = { "WaitAll", "JoinAll(true)", "JoinAll(false)", "destructor", "WaitAll twice", "use again after JoinAll" }; return n[e]; }
	void poolJob(const std::string& name, size_t maxT, int tasks, int ending, int delays, bool faults)
	{
		mc::job("pool/" + name + "/max" + std::to_string(maxT) + "/tasks" + std::to_string(tasks) + "/" + endingName(ending), [=]
		{
			int bad = faults ? mc::choose(tasks + 1) - 1 : -1; Cells c; std::atomic<int> running(0); std::atomic<int> most(0); bool threw = false, foreign = false;
			sched::begin(delays); auto guarded = [&](const std::function<void()>& f) { try { f(); } catch (Failed&) { threw = true; } catch (...) { foreign = true; } };
			{
				ThreadPool p(maxT); MC_CHECK(p.MaximumThreads() == maxT, "pool-maximum", "the pool holds %zu threads, not %zu", p.MaximumThreads(), maxT);
				auto body = [&](int i) { int r = ++running; int m = most.load(); while (r > m && !most.compare_exchange_strong(m, r)) {} struct Out { std::atomic<int>& r; ~Out() { --r; } } out{ running }; c.task(i, i == bad); };
				for (int i = 0; i < tasks; ++i) { p.AddTask([&, i] { body(i); }); MC_OP("AddTask %d", i); }
				MC_CHECK(p.ThreadCount() <= maxT, "pool-threads", "%zu threads in a pool of %zu", p.ThreadCount(), maxT);
				if (ending == WaitThenEnd || ending == WaitWait) { guarded([&] { p.WaitAll(); }); c.exactly(0, tasks, "WaitAll"); MC_CHECK(p.JobsRemaining() == 0, "pool-remaining", "%zu jobs remain after WaitAll", p.JobsRemaining()); if (ending == WaitWait) { p.AddTask([&] { c.task(tasks, false); }); guarded([&] { p.WaitAll(); }); c.exactly(0, tasks + 1, "second WaitAll"); } }
				else if (ending == JoinAllWait) { guarded([&] { p.JoinAll(true); }); c.exactly(0, tasks, "JoinAll(true)"); MC_CHECK(sched::alive() == 1, "pool-thread-left", "%d threads after JoinAll", sched::alive()); }
				else if (ending == JoinAllNow) { guarded([&] { p.JoinAll(false); }); MC_CHECK(sched::alive() == 1, "pool-thread-left", "%d threads after JoinAll(false)", sched::alive()); for (int i = 0; i < tasks; ++i) { MC_CHECK(c.ran[i] <= 1 && c.ran[i] == c.done[i], "task-count", "JoinAll(false): task %d started %d times, finished %d times", i, c.ran[i], c.done[i]); if (i) MC_CHECK(maxT > 1 || c.ran[i] <= c.ran[i - 1], "pool-order", "task %d ran but not the one before it", i); } }
				else if (ending == Reuse) { guarded([&] { p.JoinAll(true); }); c.exactly(0, tasks, "JoinAll(true)"); p.AddTask([&] { c.task(tasks, false); }); guarded([&] { p.WaitAll(); }); c.exactly(0, tasks + 1, "after JoinAll"); }
			}
			MC_OP("%s, failing task %d", endingName(ending), bad); if (ending == JustEnd) c.exactly(0, tasks, "the destructor");
			MC_CHECK(sched::alive() == 1, "pool-thread-left", "%d threads after the pool is gone", sched::alive()); MC_CHECK(most <= (int)maxT, "pool-threads", "%d tasks ran at once in a pool of %zu", most.load(), maxT); MC_CHECK(!foreign, "pool-exception", "another exception came out of the pool"); MC_CHECK(!threw || bad >= 0, "pool-exception", "an exception came out though no task failed");
			if (ending != JustEnd && ending != JoinAllNow && bad >= 0) MC_CHECK(threw, "pool-lost-failure", "the failure of task %d is lost", bad);
			uint64_t o = (uint64_t)ending; for (int i = 0; i < 16; ++i) o = o * 3 + (uint64_t)c.ran[i]; finishRun(o);
		});
	}
	void registerPool()
	{
		for (int e = 0; e < ENDINGS; ++e) { poolJob("one", 2, 1, e, D(2, 3), true); poolJob("two", 2, 2, e, D(1, 2), true); poolJob("three", 2, 3, e, D(1, 1), false); poolJob("wide", 3, 3, e, D(0, 1), false); poolJob("none", 2, 0, e, 2, false); }
		mc::job("pool/limits", [] { size_t v[] = { 0, 1, 2, 3, 1024, 1025, 5000 }; size_t n = v[mc::choose(7)]; sched::begin(0); { ThreadPool p(n); MC_OP("pool of %zu", n); MC_CHECK(p.MaximumThreads() == (n > 1 && n <= 1024 ? n : 1024), "pool-maximum", "a pool of %zu holds %zu threads", n, p.MaximumThreads()); MC_CHECK(p.ThreadCount() == 0 && p.JobsRemaining() == 0, "pool-empty", "a new pool is not empty"); } finishRun(n); });
		mc::job("pool/two-producers", [] { Cells c; sched::begin(D(1, 2)); { ThreadPool p(2); std::thread t([&] { p.AddTask([&] { c.task(0, false); }); p.AddTask([&] { c.task(1, false); }); }); p.AddTask([&] { c.task(2, false); }); t.join(); p.WaitAll(); c.exactly(0, 3, "two producers"); MC_OP("two producers"); } finishRun(1); });
		mc::job("pool/task-adds-task", [] { Cells c; sched::begin(D(2, 3)); { ThreadPool p(2); p.AddTask([&] { c.task(0, false); p.AddTask([&] { c.task(1, false); }); }); p.WaitAll(); c.exactly(0, 2, "a task that adds a task"); MC_OP("a task adds a task"); } finishRun(1); });
		mc::job("pool/two-waiters", [] { Cells c; sched::begin(D(1, 2)); { ThreadPool p(2); p.AddTask([&] { c.task(0, false); }); p.AddTask([&] { c.task(1, false); }); std::thread t([&] { p.WaitAll(); c.exactly(0, 2, "waiter"); }); p.WaitAll(); c.exactly(0, 2, "waiter"); t.join(); MC_OP("two waiters"); } finishRun(1); });
		mc::job("pool/observed", [] { Cells c; sched::begin(D(1, 2)); { ThreadPool p(2); std::thread t([&] { size_t a = p.ThreadCount(), b = p.JobsRemaining(); (void)a; (void)b; if (a > 2 || b > 2) mc::fatal("pool-observed", "more threads or jobs than were added"); }); p.AddTask([&] { c.task(0, false); }); p.AddTask([&] { c.task(1, false); }); p.WaitAll(); c.exactly(0, 2, "observed pool"); t.join(); MC_OP("observed"); } finishRun(1); });
		for (int w = 0; w < 2; ++w) mc::job(w ? "pool/detached/JoinAll(false)" : "pool/detached", [w] { bool bad = mc::flip(); Cells c; sched::begin(D(1, 2)); bool threw = false; { ThreadPool p(2); p.AddDetachedTask([&] { c.task(0, bad); }); p.AddTask([&] { c.task(1, false); }); try { p.JoinAll(w == 0); } catch (Failed&) { threw = true; } if (!w) c.exactly(0, 2, "detached task"); else { MC_CHECK(c.ran[0] == 1 && c.done[0] == 1, "task-count", "a detached task ran %d times", c.ran[0]); MC_CHECK(c.ran[1] == c.done[1], "task-unfinished", "a task still runs"); } MC_OP("a detached task"); } MC_CHECK(sched::alive() == 1, "pool-thread-left", "%d threads are left", sched::alive()); MC_CHECK(threw == bad, "pool-lost-failure", "failure %d, thrown %d", (int)bad, (int)threw); finishRun(bad); });
		mc::job("pool/threads-refused", []
		{
			int refuse = 1 + mc::choose(4); Cells c; int added = 0; sched::begin(D(1, 2)); int created = 0; sched::createFails = [&] { ++created; return refuse == 4 || created == refuse; };
			{ ThreadPool p(2); for (int i = 0; i < 3; ++i) { try { p.AddTask([&c, i] { c.task(i, false); }); ++added; MC_OP("AddTask %d", i); } catch (std::system_error&) { MC_OP("AddTask %d refused", i); MC_CHECK(c.ran[i] == 0, "task-count", "a refused task ran"); c.ran[i] = c.done[i] = -1; } } p.WaitAll(); }
			for (int i = 0; i < 3; ++i) MC_CHECK(c.ran[i] == -1 || (c.ran[i] == 1 && c.done[i] == 1), "task-count", "task %d ran %d times", i, c.ran[i]); finishRun((uint64_t)added);
		});
		mc::job("pool/spurious", [] { Cells c; sched::begin(D(1, 2)); sched::spurious = true; { ThreadPool p(2); p.AddTask([&] { c.task(0, false); }); p.WaitAll(); c.exactly(0, 1, "spurious wake-ups"); MC_OP("spurious wake-ups"); } finishRun(1); });
	}

	/* ------------------------------------------------------------------ events */
	typedef CEX::event<int> Ev;
	void registerEvents()
	{
		/* one thread: every sequence of operations against a list model */
		auto seq = [](int depth)
		{
			struct H { int id; }; Ev e; std::vector<std::pair<Ev::handler_type, int>> made; std::vector<int> model; std::vector<int> got; int next = 0, arg = 0; sched::begin(0);
			for (int s = 0; s < depth; ++s)
			{
				int op = mc::choose(7); got.clear();
				if (op == 0) { int k = next++; Ev::handler_type hd([&got, k](int a) { got.push_back(k * 100 + a); }); auto id = e.add(hd); MC_CHECK(id == hd.id(), "event-id", "add returned another id"); made.push_back({ hd, k }); model.push_back(k); MC_OP("add handler %d", k); }
				else if (op == 1) { if (made.empty()) throw mc::Infeasible(); size_t i = (size_t)mc::choose((int)made.size()); auto it = std::find(model.begin(), model.end(), made[i].second); bool was = it != model.end(); if (was) model.erase(it); bool r = e.remove(made[i].first); MC_OP("remove handler %d", made[i].second); MC_CHECK(r == was, "event-remove", "remove said %d, the handler was%s registered", (int)r, was ? "" : " not"); }
				else if (op == 2) { if (made.empty()) throw mc::Infeasible(); size_t i = (size_t)mc::choose((int)made.size()); auto it = std::find(model.begin(), model.end(), made[i].second); bool was = it != model.end(); if (was) model.erase(it); bool r = e.remove_id(made[i].first.id()); MC_OP("remove id of %d", made[i].second); MC_CHECK(r == was, "event-remove", "remove_id said %d, the handler was%s registered", (int)r, was ? "" : " not"); }
				else if (op == 3) { int a = ++arg; if (mc::flip()) e(a); else e.call(a); std::vector<int> want; for (int k : model) want.push_back(k * 100 + a); MC_OP("call %d with %zu handlers", a, model.size()); MC_CHECK(got == want, "event-delivery", "a call reached %zu handlers, %zu were registered, or out of order", got.size(), want.size()); }
				else if (op == 4) { int a = ++arg; auto f = e.call_async(a); f.get(); std::vector<int> want; for (int k : model) want.push_back(k * 100 + a); MC_OP("asynchronous call %d", a); MC_CHECK(got == want, "event-delivery", "an asynchronous call reached %zu handlers, %zu were registered", got.size(), want.size()); }
				else if (op == 5) { int kind = mc::choose(4); MC_OP("copy %d", kind); if (kind == 0) { Ev f(e); e = f; } else if (kind == 1) { Ev f(std::move(e)); e = std::move(f); } else if (kind == 2) { e = e; } else { Ev f; f = e; Ev g; g = std::move(f); e = g; } }
				else { if (made.empty()) throw mc::Infeasible(); size_t i = (size_t)mc::choose((int)made.size()); e += made[i].first; model.push_back(made[i].second); MC_OP("add handler %d again", made[i].second); }
				uint64_t st = 7; for (int k : model) st = mc::combine(st, (uint64_t)k); mc::state(st);
			}
			finishRun(model.size());
		};
		for (int d = 1; d <= D(4, 5); ++d) mc::job("event/sequence" + std::to_string(d), [=] { seq(d); });
		mc::job("event/throwing", [] { Ev e; int n = 0; e += [&](int) { ++n; throw Failed{ 1 }; }; sched::begin(1); bool t = false; if (mc::flip()) { try { e(1); } catch (Failed&) { t = true; } } else { auto f = e.call_async(1); try { f.get(); } catch (Failed&) { t = true; } } MC_OP("a handler that throws"); MC_CHECK(t && n == 1, "event-lost-failure", "the failure of a handler was lost (%d calls)", n); finishRun(1); });
		/* a call against registrations on another thread */
		mc::job("event/call-add-remove", []
		{
			int what = mc::choose(3); Ev e; std::atomic<int> stay(0), moving(0); Ev::handler_type keep([&](int) { ++stay; sched::point(); }), hop([&](int) { ++moving; }); sched::begin(D(3, 4)); e += keep; if (what != 0) e += hop; bool res = true;
			std::thread t([&] { if (what == 0) e += hop; else if (what == 1) res = e -= hop; else { res = e.remove_id(hop.id()); e += hop; } }); e(1); e(2); t.join(); int before = moving; e(3); bool now = what != 1; MC_OP("call while %s", what == 0 ? "adding" : what == 1 ? "removing" : "moving");
			MC_CHECK(res, "event-remove", "a registered handler was not found"); MC_CHECK(stay == 3, "event-delivery", "a handler that stays registered was called %d times in 3 calls", stay.load()); MC_CHECK(before >= 0 && before <= 2 && moving == before + (now ? 1 : 0), "event-delivery", "a handler was called %d times, then %d", before, moving.load()); finishRun((uint64_t)before);
		});
		mc::job("event/two-callers", [] { Ev e; std::atomic<int> n(0); sched::begin(D(2, 3)); e += [&](int a) { n += a; }; e += [&](int a) { n += 10 * a; }; std::thread t([&] { e(100); }); e(1); t.join(); MC_OP("two callers"); MC_CHECK(n == 1111, "event-delivery", "deliveries add up to %d, not 1111", n.load()); finishRun((uint64_t)n); });
		mc::job("event/adders", [] { Ev e; std::atomic<int> n(0); sched::begin(D(2, 3)); uint32_t a = 0, b = 0; std::thread t([&] { a = e += [&](int) { n += 1; }; }); b = e += [&](int) { n += 10; }; t.join(); e(0); MC_OP("two adders"); MC_CHECK(n == 11, "event-delivery", "deliveries add up to %d, not 11", n.load()); MC_CHECK(a != b, "event-id", "two handlers share an id"); MC_CHECK(e.remove_id(a) && e.remove_id(b), "event-remove", "a handler was not found"); finishRun((uint64_t)n); });
		mc::job("event/cross-assign", []
		{
			int ka = mc::choose(2), kb = mc::choose(2); Ev a, b; int na = 0, nb = 0; a += [&](int) { ++na; }; b += [&](int) { ++nb; }; sched::begin(D(3, 4)); std::thread t([&] { if (ka) a = std::move(b); else a = b; }); if (kb) b = std::move(a); else b = a; t.join(); a(0); b(0); MC_OP("a = b against b = a");
			if (!ka && !kb) MC_CHECK((na == 2 && nb == 0) || (na == 0 && nb == 2), "event-assign", "after a = b and b = a: %d calls of the first handler, %d of the second", na, nb); else MC_CHECK(na + nb <= 2, "event-assign", "handlers were duplicated"); finishRun((uint64_t)(na * 4 + nb));
		});
		mc::job("event/self-assign", [] { bool mv = mc::flip(); Ev e; int n = 0; e += [&](int) { ++n; }; sched::begin(0); Ev& r = e; if (mv) e = std::move(r); else e = r; e(0); MC_OP("self assignment"); MC_CHECK(n == 1, "event-assign", "after assigning an event to itself its handler is called %d times", n); finishRun(1); });
		mc::job("event/copy-while-adding", [] { Ev a; std::atomic<int> n(0), m(0); a += [&](int) { ++n; }; sched::begin(D(2, 3)); std::thread t([&] { a += [&](int) { ++m; }; }); int kind = mc::choose(2); std::unique_ptr<Ev> c; if (kind) c.reset(new Ev(a)); else { c.reset(new Ev); *c = a; } t.join(); (*c)(0); MC_OP("copy"); MC_CHECK(n == 1 && m <= 1, "event-assign", "the copy called its handlers %d and %d times", n.load(), m.load()); a(0); finishRun((uint64_t)m); });
		mc::job("event/async", []
		{
			int after = mc::choose(3); std::atomic<int> n(0), late(0); sched::begin(D(2, 3)); { std::unique_ptr<Ev> e(new Ev); e->add([&](int a) { n += a; sched::point(); }); std::future<void> f = e->call_async(5), g = e->call_async(7); if (after == 0) e.reset(); else if (after == 1) e->add([&](int) { ++late; }); f.get(); g.get(); } MC_OP("asynchronous calls, then %s", after == 0 ? "the event ends" : after == 1 ? "a handler is added" : "nothing");
			MC_CHECK(n == 12, "event-delivery", "two asynchronous calls delivered %d, not 12", n.load()); MC_CHECK(late == 0, "event-delivery", "a handler registered after the call was called"); finishRun((uint64_t)after);
		});
	}
	/* the library's own routing event: one thread, listeners that come and go, also while they are called */
	struct Lst : CEX::Routing::Delegate<int>
	{
		int id; std::vector<int>* log; std::function<void()> during; void operator()(int a) override { log->push_back(id * 100 + a); if (during) during(); }
	};
	void registerRouting()
	{
		for (int d = 1; d <= D(5, 6); ++d) mc::job("routing/sequence" + std::to_string(d), [d]
		{
			CEX::Routing::Event<int> e; std::vector<int> log, model; Lst l[3]; for (int i = 0; i < 3; ++i) { l[i].id = i + 1; l[i].log = &log; }
			for (int s = 0; s < d; ++s)
			{
				int op = mc::choose(8); log.clear();
				if (op < 3) { e += &l[op]; if (std::find(model.begin(), model.end(), op + 1) == model.end()) model.push_back(op + 1); MC_OP("subscribe %d", op + 1); }
				else if (op < 6) { e -= &l[op - 3]; model.erase(std::remove(model.begin(), model.end(), op - 2), model.end()); MC_OP("unsubscribe %d", op - 2); }
				else
				{
					std::vector<int> want; for (int k : model) want.push_back(k * 100 + s); int first = model.empty() ? 0 : model[0]; bool self = op == 7 && first; if (self) { l[first - 1].during = [&] { e -= &l[first - 1]; }; }
					e(s); MC_OP("call %d%s", s, self ? ", the first listener unsubscribes itself" : ""); MC_CHECK(log == want, "routing-delivery", "a call reached %zu listeners, %zu were subscribed, or out of order", log.size(), want.size()); if (self) { l[first - 1].during = nullptr; model.erase(model.begin()); }
				}
				uint64_t st = 9; for (int k : model) st = mc::combine(st, (uint64_t)k); mc::state(st);
			}
			mc::outcome(model.size());
		});
	}
}
void mc_register()
{
	mc::forkEach(true); mc::setHangSeconds(60);
	registerLoops(); registerPool(); registerEvents(); registerRouting();
	mc::bounds("closed programs over ParallelFor (0-3 tasks, nested, two callers), ParallelTask, ThreadPool (2-3 threads, 0-3 tasks, six endings, two producers, two waiters, tasks that add tasks, detached tasks) and event<> (calls against registrations, cross assignment, asynchronous calls), every set of failing tasks, every refused thread; all schedules with 1-3 departures from the default order (4 in the thorough tier); all sequences of 4-5 event operations");
	mc::assume("sequentially consistent memory at the scheduling points, justified by the absence of conflicting accesses that nothing orders, which is checked in every schedule");
}
