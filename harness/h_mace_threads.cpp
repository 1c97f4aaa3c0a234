// Separate MACE models loaded and used from separate threads.
#include <algorithm>
#include <set>
#include "../sim/sched.hpp"
#include "mace_subject.hpp"
using namespace sim;

static void mace_threads() {
    static const int load_scales[] = {300, 3000, 30000}, eval_scales[] = {0, 12, 100, 800, 5000};
    const int ls = load_scales[choose(3)], es = eval_scales[choose(5)];
    set_preempt_scale(ls);
    const int nt = range(2, 3);
    const bool same = chance(1, 3);     // same model in every thread (still separate objects)
    mm::Limits lim; lim.nel = 2; lim.nch = 3; lim.l_max = 2;
    std::unique_ptr<mm::Evaluator> proto; if (same) proto = std::make_unique<mm::Evaluator>(lim);
    int loading = nt;
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nt; ++t) bodies.push_back([&, t] {
        auto e = same ? std::make_unique<mm::Evaluator>(proto->m, proto->text) : std::make_unique<mm::Evaluator>(lim);
        e->max_atoms = 4; e->max_neigh = 6;
        e->load();
        if (--loading == 0) set_preempt_scale(es);
        const int nops = range(2, 6);
        for (int k = 0; k < nops; ++k) { e->step(); yield_now(); }
        if (chance(1, 3)) { e->p.reset(); e->load(); e->step(); }
    });
    const uint64_t s0 = sched_switches;
    run_threads(bodies);
    event("context-switches", sched_switches - s0);
    note(std::to_string(nt) + " threads, " + std::to_string(sched_switches - s0) + " switches");
    ctx->stats->faults["preemption"] += sched_switches - s0;
}
int main(int c, char** v) { return harness_main(c, v, {{"mace_threads", mace_threads}}); }
