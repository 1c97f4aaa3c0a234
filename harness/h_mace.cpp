// Whole-model harnesses: histories of structures, allocation failures.
#include <algorithm>
#include <set>
#include <execinfo.h>
#include <dlfcn.h>
#include "mace_subject.hpp"
using namespace sim;

static void mace_history() {
    const int nobj = chance(1, 4) ? 2 : 1;
    std::vector<std::unique_ptr<mm::Evaluator>> ev;
    mm::Limits lim; if (chance(1, 6)) { lim.l_max = 3; lim.L_max = 2; } else if (chance(1, 10)) { lim.nch = 24; lim.l_max = 1; } else if (chance(1, 12)) lim.nel = 6;
    for (int i = 0; i < nobj; ++i) ev.push_back(std::make_unique<mm::Evaluator>(lim));
    for (auto& e : ev) e->load();
    const int nops = range(3, 16);
    for (int t = 0; t < nops; ++t) {
        auto& e = *ev[choose(nobj)];
        e.max_atoms = chance(1, 8) ? (chance(1, 4) ? 70 : 20) : 6; e.max_neigh = chance(1, 6) ? 80 : 24;
        note("structure for model with " + std::to_string(e.m.nel) + " elements, " + std::to_string(e.m.nch) + " channels");
        e.step(); ++ctx->stats->steps;
    }
}
// The destructor of nlohmann::json allocates and terminates if it cannot; that is the
// library's own contract, so failures are not delivered there.
static bool outside_json_destructor() {
    void* f[64]; const int n = backtrace(f, 64);
    for (int i = 0; i < n; ++i) {
        Dl_info d; if (!dladdr(f[i], &d) || !d.dli_sname) continue;
        std::string_view s(d.dli_sname);
        if (s.find("basic_json") != s.npos && (s.find("json_value7destroy") != s.npos || s.ends_with("D2Ev") || s.ends_with("D1Ev"))) return false;
    }
    return true;
}
static long long alloc_body() {
    heap.may_fail = outside_json_destructor;
    const long long live0 = heap.live_blocks;
    {
        mm::Limits lim; lim.nel = 2; lim.nch = 2;
        mm::Evaluator e(lim); e.max_atoms = 4;
        const int nops = range(3, 10);
        for (int t = 0; t < nops; ++t) {
            if (chance(2, 3)) heap.fail_at = e.p ? (chance(1, 3) ? range(0, 40) : range(0, 600)) : range(0, 12000);
            heap.failed = false;
            try { e.step(); }
            catch (const std::exception& x) {
                heap_scope = 0;
                if (!heap.failed) fail("spurious-exception", std::string("exception without an injected failure: ") + x.what());
            }
            if (heap.failed) { fault(e.p ? "alloc-failure:mace-compute" : "alloc-failure:mace-load"); note("allocation failure"); }
            heap.fail_at = -1; heap.failed = false; ++ctx->stats->steps;
        }
        for (int t = 0; t < 2; ++t) e.step();
        if (!e.p) fail("no-recovery", "the model could not be loaded after failures stopped");
    }
    return heap.live_blocks - live0;
}
static void mace_alloc() {
    const size_t from = ctx->src.used.size();
    if (alloc_body() != 0) {
        long long again = 0; rerun([&] { again = alloc_body(); }, from);
        if (again != 0) fail("leak", std::to_string(again) + " blocks allocated by the library were never released");
    }
}
int main(int c, char** v) { return harness_main(c, v, {{"mace_history", mace_history}, {"mace_alloc", mace_alloc}}); }
