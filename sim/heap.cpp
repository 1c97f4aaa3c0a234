#include "core.hpp"
#include <algorithm>
#include <cerrno>
#include "heap.hpp"
#include <new>
#include <malloc.h>
extern "C" { void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*); void* __real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void**, size_t, size_t); }
namespace sim {
HeapState heap;
thread_local int heap_scope = 0;
static constexpr uint64_t MAGIC = 0x51ab5eedc0ffee01ull, FREED = 0xdeadbeefdeadbeefull;
static constexpr size_t BACK = 64;
struct Hdr { uint64_t magic; uint64_t size; void* base; uint32_t scope; uint32_t salt; uint64_t gen; uint64_t guard[3]; };
static_assert(sizeof(Hdr) == 64);
static uint64_t run_gen = 0; static uint32_t serial = 0;
static void fill(void* p, size_t n, int pat, uint64_t seed) {
    unsigned char* b = (unsigned char*)p;
    uint64_t w = 0;
    switch (pat) {
    case 0: w = 0; break;
    case 1: w = ~0ull; break;
    case 2: w = 0x7e37e43c8800759cull; break;
    case 4: w = 0x3ff0000000000000ull; break;
    default: break;
    }
    size_t i = 0;
    if (pat == 3) {
        uint64_t x = seed;
        for (; i + 8 <= n; i += 8) { uint64_t r = Rng::splitmix(x); r = (r & 0x800fffffffffffffull) | 0x3fe0000000000000ull | ((r & 0x7) << 56 >> 4); std::memcpy(b + i, &r, 8); }
    } else {
        for (; i + 8 <= n; i += 8) std::memcpy(b + i, &w, 8);
    }
    for (; i < n; ++i) b[i] = (unsigned char)(w >> (8 * (i & 7)));
}
static const uint64_t G[3] = {0x7f5e3a1b99c8d7e6ull, 0x7f5e3a1b99c8d7e6ull, 0x7f5e3a1b99c8d7e6ull};
static unsigned char backbyte(size_t i, uint32_t salt) { return (unsigned char)(0xa5 ^ (i * 7) ^ (salt * 0x9e3779b1u >> (8 * (i & 3)))); }   // differs from block to block
static bool ok(Hdr* h) {
    if (h->guard[0] != G[0] || h->guard[1] != G[1] || h->guard[2] != G[2]) return false;
    const unsigned char* e = (unsigned char*)(h + 1) + h->size;
    for (size_t i = 0; i < BACK; ++i) if (e[i] != backbyte(i, h->salt)) return false;
    return true;
}
bool heap_check(const void* p) { return ok((Hdr*)p - 1); }
static void* alloc(size_t n, size_t align, bool nothrow) {
    const bool scoped = heap.active && heap_scope > 0;
    if (scoped) {
        ++heap.allocs;
        if (heap.on_alloc) heap.on_alloc();
        if (heap.fail_at == 0 && heap.may_fail && !heap.may_fail()) {}
        else if (heap.fail_at >= 0 && heap.fail_at-- == 0) {
            heap.failed = true;
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
    }
    if (n > (size_t(1) << 33)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    if (align < 64) align = 64;
    char* base = (char*)__real_malloc(n + sizeof(Hdr) + BACK + align);
    if (!base) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    char* user = (char*)(((uintptr_t)base + sizeof(Hdr) + align - 1) / align * align);
    Hdr* h = (Hdr*)user - 1;
    h->magic = MAGIC; h->size = n; h->base = base; h->scope = scoped; h->salt = ++serial; h->gen = run_gen;
    for (int i = 0; i < 3; ++i) h->guard[i] = G[i];
    if (heap.active) fill(user, n, heap.pattern, heap.seed ^ (n * 0x9e3779b97f4a7c15ull));
    unsigned char* e = (unsigned char*)user + n;
    for (size_t i = 0; i < BACK; ++i) e[i] = backbyte(i, h->salt);
    if (scoped) { heap.live += (long long)n; ++heap.live_blocks; }
    return user;
}
static void release(void* p) {
    if (!p) return;
    Hdr* h = (Hdr*)p - 1;
    if (h->magic != MAGIC) {
        std::fprintf(stderr, "simulated heap: %s\n", h->magic == FREED ? "double free" : "free of a corrupted or foreign block");
        std::abort();
    }
    if (!ok(h)) ++heap.corrupt;
    if (h->scope && h->gen == run_gen) { heap.live -= (long long)h->size; --heap.live_blocks; }
    h->magic = FREED;
    if (heap.active) fill(p, h->size, heap.pattern, heap.seed ^ 0x5555);
    __real_free(h->base);
}
__attribute__((noinline)) void stack_fill() {
    char b[16384]; fill(b, sizeof b, heap.pattern, heap.seed ^ 0x57ac);
    asm volatile("" : : "r"(b) : "memory");
}
// malloc and friends called by the code under test (link with --wrap): the same blocks; their addresses are remembered
static constexpr size_t TAB = 1 << 16;
static void* tab[TAB]; static size_t used = 0;
static size_t slot(void* p) { return ((uintptr_t)p >> 6) * 0x9e3779b97f4a7c15ull >> 48; }
static void* remember(void* p) { if (!p || used > TAB / 2) return p; size_t i = slot(p); while (tab[i] && tab[i] != (void*)1) i = (i + 1) % TAB; tab[i] = p; ++used; return p; }
static bool ours(void* p, bool drop) { if (!p || !used) return false; for (size_t i = slot(p), n = 0; tab[i] && n < TAB; i = (i + 1) % TAB, ++n) if (tab[i] == p) { if (drop) { tab[i] = (void*)1; --used; } return true; } return false; }
static bool take() { return heap.active && heap_scope > 0 && used < TAB / 4; }
static void* c_alloc(size_t n, size_t a) { void* p = remember(alloc(n, a, true)); if (!p) errno = ENOMEM; return p; }
static void* c_realloc(void* p, size_t n) {
    if (!p && take()) return c_alloc(n, 64);
    if (!ours(p, false)) return __real_realloc(p, n);
    void* q = c_alloc(n, 64); if (!q) return nullptr;
    std::memcpy(q, p, std::min<size_t>(n, ((Hdr*)p - 1)->size)); ours(p, true); release(p); return q;
}
void heap_begin_run() {
    ++run_gen; serial = 0;
    heap = HeapState();
    heap.pattern = (int)choose(5);
    heap.seed = ((uint64_t)choose(1u << 16)) * 0x9e3779b97f4a7c15ull;
    heap.active = true;
}
void heap_end_run() {
    const uint64_t c = heap.corrupt;
    heap.active = false; heap.on_alloc = nullptr; heap.fail_at = -1;
    if (c) fail("memory-corruption", "memory next to a heap block was overwritten (" + std::to_string(c) + " blocks)");
}
}
extern "C" {
void* __wrap_malloc(size_t n) { return sim::take() ? sim::c_alloc(n, 64) : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if (!sim::take()) return __real_calloc(a, b); void* p = sim::c_alloc(a * b, 64); if (p) memset(p, 0, a * b); return p; }
void* __wrap_realloc(void* p, size_t n) { return sim::c_realloc(p, n); }
void* __wrap_aligned_alloc(size_t a, size_t n) { return sim::take() ? sim::c_alloc(n, a) : __real_aligned_alloc(a, n); }
int __wrap_posix_memalign(void** o, size_t a, size_t n) { if (!sim::take()) return __real_posix_memalign(o, a, n); void* p = sim::c_alloc(n, a); if (!p) return ENOMEM; *o = p; return 0; }
void __wrap_free(void* p) { if (sim::ours(p, true)) sim::release(p); else __real_free(p); }
}
void* operator new(size_t n) { return sim::alloc(n, 64, false); }
void* operator new[](size_t n) { return sim::alloc(n, 64, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::alloc(n, 64, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::alloc(n, 64, true); }
void* operator new(size_t n, std::align_val_t a) { return sim::alloc(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return sim::alloc(n, (size_t)a, false); }
void operator delete(void* p) noexcept { sim::release(p); }
void operator delete[](void* p) noexcept { sim::release(p); }
void operator delete(void* p, size_t) noexcept { sim::release(p); }
void operator delete[](void* p, size_t) noexcept { sim::release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::release(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim::release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::release(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim::release(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim::release(p); }
