/* A small stateless explicit-choice model checker for the real CEX code.
   A job is a closed driver: it makes every decision through choose()/deviate(); the engine runs it once per leaf of the
   choice tree (depth-first, re-executing from the start), so each run is one execution of the implementation and the set
   of runs is every execution within the job's bounds.  The jobs of a check are spread over forked workers. */
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdarg>
#include <functional>
#include <string>
#include <vector>
#include <exception>

namespace mc
{
	struct Violation { std::string key, msg; };
	struct Infeasible {};                                  /* this branch is outside the model: discard silently */

	int choose(int n);                                     /* 0..n-1, every value explored */
	int deviate(int n);                                    /* 0 is the default answer; any other value costs one deviation */
	void setDeviations(int bound);                         /* bound for this execution (call before the first deviate) */
	int deviationsUsed();
	inline bool flip() { return choose(2) == 1; }
	template <class T> const T& pick(const std::vector<T>& v) { return v[(size_t)choose((int)v.size())]; }

	void transition();                                     /* one operation of the implementation executed and compared */
	extern bool g_verbose;
	void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   /* trace line, kept only when replaying / sampling */
	void state(uint64_t hash);                             /* canonical (model) state reached */
	void outcome(uint64_t hash);                           /* final observation of an execution, to show the space is not vacuous */
	[[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	uint64_t hash(const void* p, size_t n, uint64_t seed = 1469598103934665603ULL);
	inline uint64_t hash(const std::string& s) { return hash(s.data(), s.size()); }
	uint64_t combine(uint64_t a, uint64_t b);
	std::string hex(const uint8_t* p, size_t n, size_t max = 48);

	bool thorough();
	uint64_t seed();
	void job(const std::string& name, std::function<void()> body);
	void bounds(const std::string& text);                  /* goes into the evidence */
	void assume(const std::string& text);
	void setHangSeconds(int s);
	void forkEach(bool on);                                /* every execution in a process of its own: fresh statics, and threads that stay behind end with it */
	[[noreturn]] void fatal(const char* key, const char* msg);   /* a violation seen on any thread: ends the process */
	void finding(const char* key, const char* what);       /* a defect seen in passing: suppressed only if listed in known_findings.txt */
}
#define MC_CHECK(cond, key, ...) do { if (!(cond)) mc::fail(key, __VA_ARGS__); } while (0)
#define MC_OP(...) do { mc::transition(); if (mc::g_verbose) mc::note(__VA_ARGS__); } while (0)

/* each check defines these */
extern const char* const MC_PROPERTY;
void mc_register();
