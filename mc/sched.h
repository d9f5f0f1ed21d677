/* A controlled scheduler for real threads: exactly one runs at a time, every switch between them is a choice of the model
   checker, and every access the instrumented code makes is kept, so that two accesses to one byte that nothing orders are
   seen in any schedule.  Used with the tsan variant: the compiler's hooks and the thread functions all end up here. */
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>

namespace sched
{
	void begin(int delays, int maxSteps = 20000);          /* the calling thread becomes thread 0; at most 'delays' departures from the default order */
	void end();                                            /* fails on conflicting accesses and on threads nobody waited for */
	bool active();
	void point();                                          /* another thread may run here */
	void yield();                                          /* another thread should run here */
	void block(const std::function<bool()>& ready, const char* what);
	int self(); int alive();
	uint64_t steps(); uint64_t accesses();
	void acquire(const void* obj); void release(const void* obj);
	extern std::function<bool()> createFails;              /* the system refuses a new thread */
	extern bool races, spurious, allowLeft;                /* report conflicting accesses; condition variables may wake for no reason; threads may outlive the run */
	struct Ignore { Ignore(); ~Ignore(); };                /* accesses of the driver itself */
}
