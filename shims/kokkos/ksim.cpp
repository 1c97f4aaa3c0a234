#include "ksim.hpp"
#include <deque>
#include <cstring>
#include <stdexcept>
#include "../../sim/core.hpp"
#include "../../sim/heap.hpp"
#include "../../sim/sched.hpp"
namespace ksim {
int kernel_depth = 0;
bool initialized = true;
static int g_intensity = 0;
static std::deque<std::pair<const char*, std::function<void()>>> queue;
static bool running = false;
struct Plan { int workers = 1, order = 0, chunk = 1; };
static Plan plan;
void begin_run(int i) { g_intensity = i; sim::NoScope ns; queue.clear(); running = false; kernel_depth = 0; }
long pending() { return (long)queue.size(); }
struct Depth { Depth() { ++kernel_depth; } ~Depth() { --kernel_depth; } };
struct Scale { int old; explicit Scale(int s) : old(sim::preempt_scale()) { sim::set_preempt_scale(s); } ~Scale() { sim::set_preempt_scale(old); } };
static int draw_scale() { static const int s[4] = {12, 40, 200, 2000}; return s[sim::choose(4)]; }
static bool concurrent() { return g_intensity && sim::ctx && sim::ctx->src.used.size() < 300000 && sim::chance(g_intensity, 8); }

static void drain() {
    if (running) return;
    running = true;
    struct R { ~R() { running = false; } } r;
    while (!queue.empty()) {
        std::function<void()> k;
        { sim::NoScope ns; k = std::move(queue.front().second); queue.pop_front(); }
        k();
        sim::NoScope ns; k = nullptr;
    }
}
void submit(const char* what, std::function<void()> run, bool wait) {
    if (kernel_depth) bad_access(what, "kernel launched from inside a kernel");
    if (sim::ctx) sim::event("kernels");
#if KSIM_DEVICE
    const bool async = true;
#else
    const bool async = false;
#endif
    { sim::NoScope ns; queue.emplace_back(what, std::move(run)); }
    if (wait || !async || !g_intensity) drain();
    else if (sim::choose(4) == 0) { sim::event("kernels started late"); }
    else drain();
}
void fence() { if (!kernel_depth) drain(); }

void barrier(Member& m) {
    Team& t = *m.t;
    if (t.size == 1) return;
    const uint64_t p = t.phase;
    if (++t.arrived == t.size) { t.arrived = 0; ++t.phase; sim::yield_now(); return; }
    const std::function<bool()> c = [&t, p] { return t.phase != p; };
    sim::wait_until(c, "team barrier");
}

int range_workers(long n) {
    plan = Plan();
    if (n > 1 && concurrent()) {
        plan.order = (int)sim::choose(3);
        if (sim::choose(3)) { plan.workers = 2 + (int)sim::choose(3); if (plan.workers > n) plan.workers = (int)n; const long c = (n + plan.workers - 1) / plan.workers; static const int div[3] = {1, 2, 1000000}; plan.chunk = (int)std::max(1l, c / div[sim::choose(3)]); }
    }
    return plan.workers;
}
void for_range(long n, const Chunk& body) {
    const Plan p = plan; plan = Plan();
    Depth d;
    if (n <= 0) return;
    if (p.workers <= 1) {
        if (p.order == 0) body(0, 0, n, 1); else if (p.order == 1) body(0, n - 1, -1, -1);
        else { const long k = (long)sim::choose((uint64_t)n); body(0, k, n, 1); body(0, 0, k, 1); }
        return;
    }
    sim::event("concurrent kernels");
    Scale s(draw_scale());
    std::vector<std::function<void()>> bodies; long next = 0; const long chunks = (n + p.chunk - 1) / p.chunk;
    {
        sim::NoScope ns;
        for (int w = 0; w < p.workers; ++w) bodies.push_back([&, w] {
            while (true) {
                long c = next++; if (c >= chunks) break;
                if (p.order == 1) c = chunks - 1 - c;
                body(w, c * p.chunk, std::min(n, (c + 1) * p.chunk), 1);
            }
        });
    }
    sim::run_fibers(bodies);
    sim::NoScope ns; bodies.clear(); bodies.shrink_to_fit();
}
static void prepare(Team& t, const size_t bytes[2], const size_t tb[2]) {
    for (int l = 0; l < 2; ++l) { const size_t want = bytes[l] + tb[l] * t.size; if (want) { sim::NoScope ns; t.scratch[l].assign(want + 64, (char)0xff); } t.used[l] = 0; t.team_bytes[l] = bytes[l]; }
}
void for_league(long n, int team_size, const size_t bytes[2], const size_t tb[2], const std::function<void(Member&)>& f) {
    Depth d;
    if (n <= 0) return;
    int T = team_size > 0 ? team_size : 1, slots = 1, order = 0, lanes = 0; bool strided = false, fibers = T > 1;
    if (concurrent()) {
        if (team_size <= 0) T = 1 + (int)sim::choose(4);
        slots = 1 + (int)sim::choose(3); if (slots > n) slots = (int)n;
        order = (int)sim::choose(2); strided = sim::choose(2); lanes = (int)sim::choose(8); if (lanes >= 4) lanes = 0;
        fibers = T * slots > 1;
    }
    if (!fibers) {
        Team t; t.league = n; t.size = 1; t.strided = strided; t.lanes = lanes; { sim::NoScope ns; t.slot.resize(1); }
        for (long i = 0; i < n; ++i) { t.rank = (int)(order ? n - 1 - i : i); prepare(t, bytes, tb); Member m{&t, 0}; f(m); }
        sim::NoScope ns; t.slot = {}; t.scratch[0] = {}; t.scratch[1] = {};
        return;
    }
    sim::event("concurrent kernels");
    Scale s(draw_scale());
    std::vector<Team> teams; std::vector<std::function<void()>> bodies; long next = 0;
    {
        sim::NoScope ns;
        teams.resize(slots);
        for (auto& t : teams) { t.size = T; t.league = n; t.strided = strided; t.lanes = lanes; t.slot.resize(T); t.rank = -1; }
        for (int q = 0; q < slots; ++q) for (int id = 0; id < T; ++id) bodies.push_back([&, q, id] {
            Team& t = teams[q]; Member m{&t, id};
            while (true) {
                if (id == 0) { const long c = next++; t.rank = c >= n ? -1 : (int)(order ? n - 1 - c : c); prepare(t, bytes, tb); }
                barrier(m);
                if (t.rank < 0) break;
                m.used[0] = m.used[1] = 0;
                f(m);
                barrier(m);
            }
        });
    }
    sim::run_fibers(bodies);
    sim::NoScope ns; bodies.clear(); bodies.shrink_to_fit(); teams.clear(); teams.shrink_to_fit();
}
int lane_workers(Member& m, long n) { return m.t->lanes >= 2 && n > 1 ? (int)std::min<long>(m.t->lanes, n) : 1; }
void for_lanes(Member& m, long n, const Chunk& body) {
    if (n <= 0) return;
    const int L = lane_workers(m, n);
    if (L <= 1) { if (m.t->lanes == 1) body(0, n - 1, -1, -1); else body(0, 0, n, 1); return; }
    std::vector<std::function<void()>> bodies;
    { sim::NoScope ns; for (int l = 0; l < L; ++l) bodies.push_back([&body, l, L, n] { body(l, l, n + (L - 1 - (n - 1 - l) % L), L); }); }
    sim::run_fibers(bodies);
    sim::NoScope ns; bodies.clear(); bodies.shrink_to_fit();
}
void my_share(Member& m, long n, long& b, long& e, long& step) {
    const int T = m.t->size;
    if (m.t->strided) { b = m.id; step = T; e = n; }
    else { const long c = (n + T - 1) / T; b = std::min(n, c * m.id); e = std::min(n, b + c); step = 1; }
}
void* scratch(Member& m, int level, size_t bytes, bool per_team) {
    Team& t = *m.t;
    const size_t off = (m.used[level] + 7) / 8 * 8;
    if (off + bytes > (per_team ? t.team_bytes[level] : t.scratch[level].size())) { error("scratch memory of " + std::to_string(t.team_bytes[level]) + " bytes requested, " + std::to_string(off + bytes) + " used"); }
    m.used[level] = off + bytes;
    return t.scratch[level].data() + off;
}
struct Rec { void* p; size_t n; int refs, space; void (*destroy)(void*, size_t); std::string label; };
Rec* make_rec(const char* label, size_t bytes, size_t n, int space, void (*destroy)(void*, size_t)) {
    void* p = ::operator new(bytes ? bytes : 1);
    sim::NoScope ns; return new Rec{p, n, 1, space, destroy, label};
}
bool hold(Rec* r) { if (kernel_depth) return false; ++r->refs; return true; }
void drop(Rec* r) {
    if (--r->refs) return;
    if (r->destroy) r->destroy(r->p, r->n);
    ::operator delete(r->p);
    sim::NoScope ns; delete r;
}
int use_count(Rec* r) { return r->refs; }
const char* label(Rec* r) { return r->label.c_str(); }
int space(Rec* r) { return r->space; }
void* memory(Rec* r) { return r->p; }
void zero(void* p, size_t n) { std::memset(p, 0, n); }
int scan_chunks(long n) { if (n < 2 || !concurrent()) return 1; const int c = 1 + (int)sim::choose(4); return (int)std::min<long>(c, n); }
void for_serial(const std::function<void()>& f) { Depth d; f(); }
void oob(Rec* r, int dim, long i, size_t n) { sim::fail("kokkos:out-of-bounds", std::string("view \"") + (r ? r->label : std::string("unmanaged")) + "\": index " + std::to_string(i) + " of dimension " + std::to_string(dim) + ", extent " + std::to_string(n)); }
void bad_access(const char* label, const char* what) { sim::fail("kokkos:memory-space", std::string("\"") + label + "\": " + what); }
void error(const std::string& s) { throw std::runtime_error("Kokkos: " + s); }
AtomicGuard::AtomicGuard() { new (this) sim::Atomic(); }
AtomicGuard::~AtomicGuard() { ((sim::Atomic*)this)->~Atomic(); }
}
