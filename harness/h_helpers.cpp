// Histories of helper calls, with and without allocation failures; and concurrent callers.
#include "helpers.hpp"
#ifdef HELPERS_THREADS
#include "../sim/sched.hpp"
using namespace sim;
static void helpers_threads() {
    static const int scales[] = {0, 3, 12, 60, 300, 2000};
    set_preempt_scale(scales[choose(6)]);
    const int nt = range(2, 4), focus = chance(1, 3) ? -1 : (int)choose(17);   // most runs concentrate on one helper
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nt; ++t) bodies.push_back([focus] { hp::Client c; c.big = false; c.focus = focus; const int n = range(2, 6); for (int k = 0; k < n; ++k) { c.step(); yield_now(); } });
    const uint64_t s0 = sched_switches;
    run_threads(bodies);
    event("context-switches", sched_switches - s0);
    note(std::to_string(nt) + " threads, " + std::to_string(sched_switches - s0) + " switches");
    ctx->stats->faults["preemption"] += sched_switches - s0;
}
int main(int c, char** v) { return harness_main(c, v, {{"helpers_threads", helpers_threads}}); }
#else
using namespace sim;
static void helpers() { hp::Client c; if (chance(1, 3)) c.focus = (int)choose(17); const int n = range(4, 24); for (int k = 0; k < n; ++k) c.step(); }
static long long alloc_body() {
    const long long live0 = heap.live_blocks;
    hp::Client c; if (chance(1, 3)) c.focus = (int)choose(17);
    const int n = range(3, 20);
    for (int k = 0; k < n; ++k) {
        if (chance(2, 3)) heap.fail_at = chance(1, 2) ? range(0, 200) : range(0, 12);
        heap.failed = false;
        try { c.step(); }
        catch (const std::exception& e) { heap_scope = 0; if (!heap.failed) fail("spurious-exception", std::string("exception without an injected failure: ") + e.what()); }
        if (heap.failed) { fault("alloc-failure"); note("allocation failure"); }
        heap.fail_at = -1; heap.failed = false;
    }
    for (int k = 0; k < 4; ++k) c.step();     // recovery: faults have stopped
    return heap.live_blocks - live0;
}
static void helpers_alloc() {
    const size_t from = ctx->src.used.size();
    if (alloc_body() != 0) {
        long long again = 0;
        rerun([&] { again = alloc_body(); }, from);
        if (again != 0) fail("leak", std::to_string(again) + " blocks allocated by the library were never released");
    }
}
int main(int c, char** v) { return harness_main(c, v, {{"helpers", helpers}, {"helpers_alloc", helpers_alloc}}); }
#endif
