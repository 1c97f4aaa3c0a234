#include "sched.hpp"
#include "heap.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <memory>
#include <sys/mman.h>

namespace sim {
uint64_t sched_switches = 0;
// ---- state read by the hooks (hooks.cpp)
bool hook_active = false;      // a worker is running code under test
long hook_countdown = 0;

static int g_scale = 0;
static int no_preempt = 0;
void set_preempt_scale(int s) { g_scale = s; }
int preempt_scale() { return g_scale; }

enum class Kind { none, threads, fibers };
struct Worker;
struct Group {
    Kind kind = Kind::none;
    std::vector<std::unique_ptr<Worker>> w;
    int cur = -1;
    int alive = 0;
    uint64_t idle_rounds = 0;
    bool has_violation = false; Violation v;
    bool has_exc = false; std::string exc;
    // saved outer state
    Group* outer = nullptr; bool outer_active = false; long outer_countdown = 0; int outer_no_preempt = 0;
    void* main_sp = nullptr;
    sem_t main_sem;
    int outer_scope = 0;
};
struct Worker {
    Group* g; int id; std::function<void()> body; bool done = false; bool started = false;
    const std::function<bool()>* cond = nullptr; const char* what = "";
    // threads
    pthread_t th; sem_t sem;
    // fibers
    void* sp = nullptr; void* stack = nullptr; size_t stack_size = 0; int scope = 0; int no_preempt = 0;
};
static Group* G = nullptr;

bool in_worker() { return G && G->cur >= 0; }
bool in_fiber() { return G && G->kind == Kind::fibers && G->cur >= 0; }
int worker_id() { return G ? G->cur : -1; }
Atomic::Atomic() { ++no_preempt; }
Atomic::~Atomic() { --no_preempt; }

static void rearm() {
    if (g_scale <= 0) { hook_countdown = 1l << 60; return; }
    hook_countdown = 1 + (long)choose((uint64_t)g_scale);
}
static uint64_t step_limit = 400000000ull;

// pick the next worker; -1 if all are done.
static int pick() {
    Group* g = G;
    std::vector<int> can;
    int blocked = 0;
    for (auto& w : g->w) {
        if (w->done) continue;
        if (w->cond) { if ((*w->cond)()) w->cond = nullptr; else { ++blocked; continue; } }
        can.push_back(w->id);
    }
    if (can.empty()) {
        if (blocked == 0) return -1;
        std::string s;
        for (auto& w : g->w) if (!w->done && w->cond) s += std::string(s.empty() ? "" : ", ") + "worker " + std::to_string(w->id) + " in " + w->what;
        if (!g->has_violation && !g->has_exc) { g->has_violation = true; g->v = {"deadlock", "no worker can proceed: " + s}; }
        return -2;
    }
    int k = can[choose(can.size())];
    ctx->mix_sched(((uint64_t)k << 32) ^ (uint64_t)ctx->stats->steps);
    ++sched_switches; ++ctx->stats->steps;
    return k;
}

// ------------------------------------------------------------------ fibers
extern "C" void sim_switch(void** save_sp, void* load_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");

static void switch_to(int k);
[[noreturn]] static void fiber_main() {
    Group* g = G; Worker* w = g->w[g->cur].get();
    hook_active = true;
    try { w->body(); }
    catch (const Violation& v) { if (!g->has_violation) { g->has_violation = true; g->v = v; } }
    catch (const std::exception& e) { if (!g->has_exc) { g->has_exc = true; g->exc = e.what(); } }
    hook_active = false;
    w->done = true;
    NoScope ns;
    // a failed run ends at once: the other fibers are abandoned where they are
    int k = g->has_violation || g->has_exc ? -1 : pick();
    void* dummy;
    if (k < 0) { g->cur = -1; sim_switch(&dummy, g->main_sp); }
    else { g->cur = k; Worker* n = g->w[k].get(); no_preempt = n->no_preempt; heap_scope = n->scope; rearm(); hook_active = true; sim_switch(&dummy, n->sp); }
    std::abort();
}
static std::vector<std::pair<void*, size_t>> stack_pool;
static void* get_stack(size_t sz) {
    if (!stack_pool.empty()) { void* p = stack_pool.back().first; stack_pool.pop_back(); return p; }
    void* p = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_STACK | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) std::abort();
    return p;
}
static void switch_to(int k) {
    Group* g = G; Worker* me = g->w[g->cur].get(); Worker* n = g->w[k].get();
    if (n == me) return;
    me->no_preempt = no_preempt; me->scope = heap_scope;
    g->cur = k; no_preempt = n->no_preempt; heap_scope = n->scope;
    sim_switch(&me->sp, n->sp);
}

// ------------------------------------------------------------------ common
static void reschedule() {
    Group* g = G;
    hook_active = false;
    int scope = heap_scope; heap_scope = 0;
    int k = pick();
    if (k >= 0) {
        rearm();
        if (k != g->cur) {
            if (g->kind == Kind::fibers) {
                heap_scope = scope;
                hook_active = true;
                switch_to(k);
                hook_active = true;
                return;
            } else {
                Worker* me = g->w[g->cur].get(); Worker* n = g->w[k].get();
                me->no_preempt = no_preempt;
                g->cur = k; no_preempt = n->no_preempt;
                sem_post(&n->sem);
                while (sem_wait(&me->sem) != 0) {}
            }
        }
    } else if (k == -2) {
        // deadlock: cannot unwind the others; report at once
        Violation v = g->v;
        heap_scope = scope;
        throw v;
    }
    heap_scope = scope;
    hook_active = true;
}
void hook_fire() {   // countdown reached zero at an instrumented access
    if (!G || G->cur < 0 || no_preempt) { hook_countdown = 64; return; }
    ctx->stats->steps += 1;
    if (ctx->stats->steps > step_limit) { hook_countdown = 1l << 60; fail("no-progress", "step limit exceeded"); }
    reschedule();
}
void yield_now() {
    if (!in_worker() || no_preempt) return;
    reschedule();
}
void wait_until(const std::function<bool()>& cond, const char* what) {
    if (cond()) return;
    if (!in_worker()) fail("deadlock", std::string("blocked outside any worker in ") + what);
    Worker* me = G->w[G->cur].get();
    int np = no_preempt; no_preempt = 0;
    me->cond = &cond; me->what = what;
    while (true) {
        reschedule();
        if (me->cond == nullptr) break;     // pick() saw the condition hold
        if (cond()) { me->cond = nullptr; break; }
    }
    no_preempt = np;
}

static void finish(Group& g) {
    G = g.outer; hook_active = g.outer_active; hook_countdown = g.outer_countdown; no_preempt = g.outer_no_preempt; heap_scope = g.outer_scope;
    if (g.has_violation) throw g.v;
    if (g.has_exc) fail("unexpected-exception", g.exc);
}

void run_fibers(const std::vector<std::function<void()>>& bodies) {
    Group g; g.kind = Kind::fibers;
    g.outer = G; g.outer_active = hook_active; g.outer_countdown = hook_countdown; g.outer_no_preempt = no_preempt; g.outer_scope = heap_scope;
    hook_active = false;
    const int scope = heap_scope; heap_scope = 0;
    constexpr size_t SZ = 1 << 20;
    for (size_t i = 0; i < bodies.size(); ++i) {
        auto w = std::make_unique<Worker>(); w->g = &g; w->id = (int)i; w->body = bodies[i]; w->scope = scope;
        w->stack = get_stack(SZ); w->stack_size = SZ;
        uintptr_t top = (uintptr_t)w->stack + SZ; top &= ~(uintptr_t)63;
        void** sp = (void**)top;
        *--sp = nullptr;                 // fake return address, keeps alignment: rsp%16==8 at entry
        *--sp = (void*)&fiber_main;      // ret target
        for (int k = 0; k < 6; ++k) *--sp = nullptr;
        w->sp = sp;
        g.w.push_back(std::move(w));
    }
    G = &g; no_preempt = 0;
    int k = pick();
    if (k >= 0) {
        g.cur = k; heap_scope = g.w[k]->scope; rearm(); hook_active = true;
        sim_switch(&g.main_sp, g.w[k]->sp);
    }
    hook_active = false; heap_scope = 0;
    for (auto& w : g.w) stack_pool.push_back({w->stack, w->stack_size});
    finish(g);
}

static void* thread_main(void* p) {
    Worker* w = (Worker*)p; Group* g = w->g;
    while (sem_wait(&w->sem) != 0) {}
    hook_active = true;
    try { w->body(); }
    catch (const Violation& v) { if (!g->has_violation) { g->has_violation = true; g->v = v; } }
    catch (const std::exception& e) { if (!g->has_exc) { g->has_exc = true; g->exc = e.what(); } }
    hook_active = false; heap_scope = 0;
    w->done = true;
    int k = pick();
    if (k < 0) { g->cur = -1; sem_post(&g->main_sem); }
    else { g->cur = k; no_preempt = g->w[k]->no_preempt; rearm(); sem_post(&g->w[k]->sem); }
    return nullptr;
}
void run_threads(const std::vector<std::function<void()>>& bodies) {
    Group g; g.kind = Kind::threads;
    g.outer = G; g.outer_active = hook_active; g.outer_countdown = hook_countdown; g.outer_no_preempt = no_preempt; g.outer_scope = heap_scope;
    hook_active = false; heap_scope = 0;
    sem_init(&g.main_sem, 0, 0);
    G = &g; no_preempt = 0;
    for (size_t i = 0; i < bodies.size(); ++i) {
        auto w = std::make_unique<Worker>(); w->g = &g; w->id = (int)i; w->body = bodies[i]; sem_init(&w->sem, 0, 0);
        g.w.push_back(std::move(w));
    }
    for (auto& w : g.w) if (pthread_create(&w->th, nullptr, thread_main, w.get())) std::abort();
    int k = pick();
    g.cur = k; rearm();
    sem_post(&g.w[k]->sem);
    while (sem_wait(&g.main_sem) != 0) {}
    for (auto& w : g.w) pthread_join(w->th, nullptr);
    finish(g);
}
}
