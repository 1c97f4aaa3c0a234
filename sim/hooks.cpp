// Link-time stand-in for the ThreadSanitizer runtime: the code under test is compiled
// with -fsanitize=thread, and each instrumented access becomes a possible preemption
// point of the simulator.  Also: blocking primitives that must go through the simulator.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <dlfcn.h>
#include <pthread.h>
#include "sched.hpp"
namespace sim { extern bool hook_active; extern long hook_countdown; void hook_fire(); extern uint64_t hook_accesses; uint64_t hook_accesses = 0; }
#define HOT __attribute__((always_inline)) static inline
HOT void point() {
    if (__builtin_expect(!sim::hook_active, 1)) return;
    ++sim::hook_accesses;
    if (__builtin_expect(--sim::hook_countdown <= 0, 0)) sim::hook_fire();
}
extern "C" {
#define ACC(n) void n(void*) { point(); }
ACC(__tsan_read1) ACC(__tsan_read2) ACC(__tsan_read4) ACC(__tsan_read8) ACC(__tsan_read16)
ACC(__tsan_write1) ACC(__tsan_write2) ACC(__tsan_write4) ACC(__tsan_write8) ACC(__tsan_write16)
ACC(__tsan_unaligned_read2) ACC(__tsan_unaligned_read4) ACC(__tsan_unaligned_read8) ACC(__tsan_unaligned_read16)
ACC(__tsan_unaligned_write2) ACC(__tsan_unaligned_write4) ACC(__tsan_unaligned_write8) ACC(__tsan_unaligned_write16)
ACC(__tsan_volatile_read1) ACC(__tsan_volatile_read2) ACC(__tsan_volatile_read4) ACC(__tsan_volatile_read8) ACC(__tsan_volatile_read16)
ACC(__tsan_volatile_write1) ACC(__tsan_volatile_write2) ACC(__tsan_volatile_write4) ACC(__tsan_volatile_write8) ACC(__tsan_volatile_write16)
ACC(__tsan_vptr_read)
void __tsan_vptr_update(void**, void*) {}
void __tsan_read_range(void*, size_t) { point(); }
void __tsan_write_range(void*, size_t) { point(); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { point(); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { point(); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { point(); return memset(d, c, n); }
#define ATOMICS(B, T) \
T __tsan_atomic##B##_load(const volatile T* a, int) { point(); return __atomic_load_n(a, 5); } \
void __tsan_atomic##B##_store(volatile T* a, T v, int) { point(); __atomic_store_n(a, v, 5); } \
T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { point(); return __atomic_exchange_n(a, v, 5); } \
T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { point(); return __atomic_fetch_add(a, v, 5); } \
T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { point(); return __atomic_fetch_sub(a, v, 5); } \
T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { point(); return __atomic_fetch_and(a, v, 5); } \
T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { point(); return __atomic_fetch_or(a, v, 5); } \
T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { point(); return __atomic_fetch_xor(a, v, 5); } \
T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { point(); return __atomic_fetch_nand(a, v, 5); } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { point(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { point(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { point(); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) { point(); }
void __tsan_atomic_signal_fence(int) {}

// static-local initialisation: another simulated thread may find it in progress
int __cxa_guard_acquire(uint64_t* g) {
    volatile uint8_t* b = (volatile uint8_t*)g;
    while (true) {
        if (b[0]) return 0;
        if (!b[1]) { b[1] = 1; return 1; }
        if (!sim::in_worker()) return 1;
        sim::wait_until([b] { return b[0] || !b[1]; }, "static initialisation");
    }
}
void __cxa_guard_release(uint64_t* g) { volatile uint8_t* b = (volatile uint8_t*)g; b[0] = 1; b[1] = 0; }
void __cxa_guard_abort(uint64_t* g) { volatile uint8_t* b = (volatile uint8_t*)g; b[1] = 0; }

int pthread_mutex_lock(pthread_mutex_t* m) {
    static int (*real)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (!sim::in_worker()) return real(m);
    while (true) {
        int r = pthread_mutex_trylock(m);
        if (r != 16 /*EBUSY*/) return r;
        sim::yield_now();
    }
}
int pthread_once(pthread_once_t* o, void (*f)()) {
    volatile int* s = (volatile int*)o;
    while (true) {
        if (*s == 2) return 0;
        if (*s == 0) { *s = 1; f(); *s = 2; return 0; }
        if (!sim::in_worker()) return 0;
        sim::wait_until([s] { return *s != 1; }, "call_once");
    }
}
}
