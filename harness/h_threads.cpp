// Separate evaluator objects used from separate threads.
#include <algorithm>
#include "../sim/sched.hpp"
#include "evaluators.hpp"
using namespace sim;

static void threads() {
    static const int scales[] = {0, 3, 12, 60, 300, 2000};
    set_preempt_scale(scales[choose(6)]);
    const int nt = range(2, 4);
    const int focus = (int)choose(6) - 1;   // most runs concentrate on one kind of evaluator
    // sometimes the threads start from copies of one object (every thread still owns its copy)
    std::vector<std::unique_ptr<ev::Subject>> given(nt);
    if (chance(1, 3)) {
        auto proto = ev::make_subject(focus); const int warm = range(1, 4); for (int k = 0; k < warm; ++k) proto->step();
        for (int t = 0; t < nt; ++t) given[t] = t + 1 == nt && chance(1, 2) ? std::move(proto) : proto->clone();
        event("threads.start-from-copies");
    }
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nt; ++t) bodies.push_back([t, focus, &given] {
        std::vector<std::unique_ptr<ev::Subject>> obj; if (given[t]) obj.push_back(std::move(given[t]));
        const int nops = range(3, 14);
        for (int k = 0; k < nops; ++k) {
            if (obj.empty() || (obj.size() < 3 && chance(1, 4))) { obj.push_back(ev::make_subject(focus)); }
            const int i = (int)choose(obj.size());
            obj[i]->step();
            yield_now();
        }
    });
    const uint64_t s0 = sched_switches;
    run_threads(bodies);
    event("context-switches", sched_switches - s0);
    note(std::to_string(nt) + " threads, preemption scale " + std::to_string(preempt_scale()) + ", " + std::to_string(sched_switches - s0) + " switches");
    ctx->stats->faults["preemption"] += sched_switches - s0;
}
int main(int c, char** v) { return harness_main(c, v, {{"threads", threads}}); }
