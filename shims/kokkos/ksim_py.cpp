// Runtime of the simulated Kokkos backend inside the Python module: kernels run one after
// another on one worker; their start, the order of their work items, team sizes and the
// contents of fresh memory come from a generator that the Python harness seeds per run.
// (Interleavings inside kernels are what the C++ harnesses of C08-C10 explore.)
#include "ksim.hpp"
#include <cstring>
#include <deque>
#include <stdexcept>
#if KSIM_DEVICE
static const bool device = true;
#else
static const bool device = false;
#endif
namespace ksim {
int kernel_depth = 0;
bool initialized = false;
static uint64_t state = 1, count_kernels = 0, count_late = 0;
static bool active = false;
static std::string violation;
static uint64_t next() { uint64_t z = (state += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static uint64_t choose(uint64_t n) { return active && n > 1 ? next() % n : 0; }
static std::deque<std::function<void()>> queue;
static bool running = false;
static void report(const std::string& s) { if (violation.empty()) violation = s; throw std::runtime_error("simulated Kokkos: " + s); }
static void drain() {
    if (running) return;
    running = true; struct R { ~R() { running = false; } } r;
    while (!queue.empty()) { auto k = std::move(queue.front()); queue.pop_front(); k(); }
}
struct Depth { Depth() { ++kernel_depth; } ~Depth() { --kernel_depth; } };
void submit(const char* what, std::function<void()> run, bool wait) {
    if (!initialized) report(std::string(what) + ": Kokkos is not initialized");
    if (kernel_depth) bad_access(what, "kernel launched from inside a kernel");
    ++count_kernels; queue.push_back(std::move(run));
    if (wait || !device || choose(4)) drain(); else ++count_late;
}
void fence() { if (!kernel_depth) drain(); }
long pending() { return (long)queue.size(); }
void barrier(Member&) {}
int range_workers(long) { return 1; }
static void ordered(long n, const Chunk& body) { switch (choose(3)) { case 0: body(0, 0, n, 1); break; case 1: body(0, n - 1, -1, -1); break; default: { const long k = (long)choose((uint64_t)n); body(0, k, n, 1); body(0, 0, k, 1); } } }
void for_range(long n, const Chunk& body) { Depth d; if (n > 0) ordered(n, body); }
void for_league(long n, int, const size_t bytes[2], const size_t tb[2], const std::function<void(Member&)>& f) {
    Depth d; if (n <= 0) return;
    Team t; t.league = n; t.size = 1; t.lanes = (int)choose(2); t.slot.resize(1); const bool back = choose(2);
    for (long i = 0; i < n; ++i) {
        t.rank = (int)(back ? n - 1 - i : i);
        for (int l = 0; l < 2; ++l) { const size_t w = bytes[l] + tb[l]; if (w) t.scratch[l].assign(w + 64, (char)0xff); t.used[l] = 0; t.team_bytes[l] = bytes[l]; }
        Member m{&t, 0}; f(m);
    }
}
int lane_workers(Member&, long) { return 1; }
void for_lanes(Member& m, long n, const Chunk& body) { if (n <= 0) return; if (m.t->lanes == 1) body(0, n - 1, -1, -1); else body(0, 0, n, 1); }
void my_share(Member&, long n, long& b, long& e, long& step) { b = 0; e = n; step = 1; }
void* scratch(Member& m, int level, size_t bytes, bool per_team) {
    Team& t = *m.t; const size_t off = (m.used[level] + 7) / 8 * 8;
    if (off + bytes > (per_team ? t.team_bytes[level] : t.scratch[level].size())) error("scratch memory exceeded");
    m.used[level] = off + bytes; return t.scratch[level].data() + off;
}
struct Rec { void* p; size_t n, bytes; int refs, space; void (*destroy)(void*, size_t); std::string label; };
static const size_t guard = 32;
Rec* make_rec(const char* label, size_t bytes, size_t n, int space, void (*destroy)(void*, size_t)) {
    if (!initialized) report(std::string("view \"") + label + "\" allocated before Kokkos was initialized");
    char* p = (char*)::operator new(bytes + 2 * guard);
    const int how = (int)choose(3); uint64_t g = next() | 1;
    for (size_t i = guard; i < bytes + guard; ++i) p[i] = how == 0 ? (char)0xff : how == 1 ? (char)0x41 : (char)(g = g * 6364136223846793005ull + 1442695040888963407ull, g >> 56);
    std::memset(p, 0x5b, guard); std::memset(p + guard + bytes, 0x5b, guard);
    return new Rec{p + guard, n, bytes, 1, space, destroy, label};
}
bool hold(Rec* r) { if (kernel_depth) return false; ++r->refs; return true; }
void drop(Rec* r) {
    if (--r->refs) return;
    char* p = (char*)r->p;
    for (size_t i = 0; i < guard; ++i) if (p[-1 - (long)i] != 0x5b || p[r->bytes + i] != 0x5b) { if (violation.empty()) violation = "memory next to view \"" + r->label + "\" was overwritten"; break; }
    if (r->destroy) r->destroy(r->p, r->n);
    std::memset(p, 0xdd, r->bytes);
    ::operator delete(p - guard); delete r;
}
int use_count(Rec* r) { return r->refs; }
const char* label(Rec* r) { return r->label.c_str(); }
int space(Rec* r) { return r->space; }
void* memory(Rec* r) { return r->p; }
void zero(void* p, size_t n) { std::memset(p, 0, n); }
int scan_chunks(long) { return 1; }
void for_serial(const std::function<void()>& f) { Depth d; f(); }
void oob(Rec* r, int dim, long i, size_t n) { report(std::string("view \"") + (r ? r->label : std::string("unmanaged")) + "\": index " + std::to_string(i) + " of dimension " + std::to_string(dim) + ", extent " + std::to_string(n)); }
void bad_access(const char* label, const char* what) { report(std::string("\"") + label + "\": " + what); }
void error(const std::string& s) { throw std::runtime_error("Kokkos: " + s); }
AtomicGuard::AtomicGuard() {}
AtomicGuard::~AtomicGuard() {}
void begin_run(int) {}
}
#define API extern "C" __attribute__((visibility("default")))
API void ksim_seed(unsigned long long s) { ksim::queue.clear(); ksim::kernel_depth = 0; ksim::running = false; ksim::state = s; ksim::active = s != 0; ksim::violation.clear(); }
API const char* ksim_violation() { return ksim::violation.c_str(); }
API unsigned long long ksim_kernels() { return ksim::count_kernels; }
API unsigned long long ksim_late() { return ksim::count_late; }
