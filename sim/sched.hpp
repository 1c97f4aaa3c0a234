// Seeded schedulers.
//  * run_threads: real threads, exactly one runs at a time; the simulator picks who
//    runs next and after how many instrumented memory accesses it is preempted.
//  * run_fibers: the same for light-weight workers inside one thread (the lanes of a
//    simulated Kokkos kernel, the ranks of a simulated MPI job).
// Preemption points are the memory accesses of the code under test: its sources are
// compiled with -fsanitize=thread and linked with the hooks in hooks.cpp.
#pragma once
#include <functional>
#include <string>
#include <vector>
#include "core.hpp"
namespace sim {
void run_threads(const std::vector<std::function<void()>>& bodies);
void run_fibers(const std::vector<std::function<void()>>& bodies);
// cooperative primitives usable inside either kind of worker
void yield_now();                          // let the scheduler pick again
void wait_until(const std::function<bool()>& cond, const char* what);  // blocks the worker
bool in_worker();
int worker_id();
bool in_fiber();
struct Atomic {                            // no preemption inside
    Atomic(); ~Atomic();
};
// preemption granularity of the current run: 0 = never preempt at memory accesses
void set_preempt_scale(int scale);
int preempt_scale();
extern uint64_t sched_switches;
}
