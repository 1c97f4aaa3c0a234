// History independence and allocation-failure safety of the small evaluators.
#include <algorithm>
#include "evaluators.hpp"
using namespace sim;

// objects come and go: copies live next to their originals, objects are assigned to each other, destroyed and recreated
static bool shuffle(std::vector<std::unique_ptr<ev::Subject>>& obj) {
    if (!chance(1, 8)) return false;
    const int k = (int)choose(obj.size()), how = (int)choose(4);
    if (how == 0 && obj.size() < 6) { event("object.clone"); note(std::string("copy ") + obj[k]->kind()); auto q = obj[k]->clone(); obj.push_back(std::move(q)); }
    else if (how == 1) { const int j = (int)choose(obj.size()); if (std::string(obj[j]->kind()) != obj[k]->kind()) return false; event("object.assign"); note(std::string("assign ") + obj[k]->kind()); heap.fail_at = -1; obj[k]->take(*obj[j]); }   // a failed assignment leaves its target unspecified, so none is made to fail
    else if (how == 2) { event("object.recreate"); note(std::string("recreate ") + obj[k]->kind()); obj[k].reset(); obj[k] = ev::make_subject(); obj[k]->step(); }
    else if (obj.size() > 1) { event("object.destroy"); note(std::string("destroy ") + obj[k]->kind()); obj.erase(obj.begin() + k); }
    return true;
}
static void history() {
    const int nobj = range(1, 4);
    std::vector<std::unique_ptr<ev::Subject>> obj;
    for (int i = 0; i < nobj; ++i) obj.push_back(ev::make_subject());
    const int nops = range(4, 40);
    for (int t = 0; t < nops; ++t) {
        if (shuffle(obj)) continue;
        const int k = (int)choose(obj.size());
        note(std::string("op on ") + obj[k]->kind() + " #" + std::to_string(k));
        obj[k]->step(); ++ctx->stats->steps;
    }
}

// Allocation failures: an operation may end in std::bad_alloc; afterwards the same
// object, used normally, must give the right results, and nothing may be leaked.
static long long alloc_body() {
    long long live0 = heap.live_blocks;
    {
        const int nobj = range(1, 3);
        std::vector<std::unique_ptr<ev::Subject>> obj;
        for (int i = 0; i < nobj; ++i) obj.push_back(ev::make_subject());
        const int nops = range(4, 30);
        for (int t = 0; t < nops; ++t) {
            const int k = (int)choose(obj.size());
            if (chance(1, 2)) heap.fail_at = chance(1, 3) ? range(0, 200) : range(0, 12);
            heap.failed = false;
            std::string kind = obj[k]->kind();
            try { if (!shuffle(obj)) obj[k]->step(); }
            catch (const std::exception& e) {
                heap_scope = 0;
                if (!heap.failed) fail("spurious-exception", std::string("exception without an injected failure: ") + e.what());
            }
            if (heap.failed) { fault("alloc-failure:" + kind); note("allocation failure in " + kind); }
            heap.fail_at = -1; heap.failed = false; ++ctx->stats->steps;
        }
        for (size_t t = 0; t < 2 * obj.size(); ++t) if (obj[t % obj.size()]) obj[t % obj.size()]->step();   // recovery: faults have stopped
    }
    return heap.live_blocks - live0;
}
static void alloc_failure() {
    const size_t from = ctx->src.used.size();
    if (alloc_body() != 0) {          // a leak grows every time; a cache filled once does not
        long long again = 0;
        rerun([&] { again = alloc_body(); }, from);
        if (again != 0) fail("leak", std::to_string(again) + " blocks allocated by the library were never released");
    }
}


int main(int c, char** v) { return harness_main(c, v, {{"history", history}, {"alloc", alloc_failure}}); }
