// Simulated heap: the harness replaces operator new/delete.  Fresh and freed memory
// holds a seeded pattern, blocks sit between guard zones, and the simulator can make
// the n-th allocation of the code under test fail.
#pragma once
#include <cstddef>
#include <cstdint>
namespace sim {
struct HeapState {
    bool active = false;          // pattern fill + guards checked + accounting
    int pattern = 0;              // 0 zero, 1 0xff.. (NaN), 2 1e300, 3 random, 4 1.0
    uint64_t seed = 0;
    uint64_t allocs = 0;          // allocations inside the code under test (scope>0)
    long long fail_at = -1;       // fail the allocation with this ordinal (from now), -1 never
    bool failed = false;          // a failure has been delivered
    long long live = 0;           // live bytes allocated in scope
    long long live_blocks = 0;
    uint64_t corrupt = 0;         // overwritten guard zones seen
    void (*on_alloc)() = nullptr; // scheduling hook
    bool (*may_fail)() = nullptr; // asked before a failure is delivered; false postpones it to the next allocation
};
extern HeapState heap;
extern thread_local int heap_scope;
void stack_fill();                // leaves the seeded pattern in the stack below the caller
struct Scope { Scope() { if (heap.active) stack_fill(); ++heap_scope; } ~Scope() { --heap_scope; } };
struct NoScope { int s; NoScope() : s(heap_scope) { heap_scope = 0; } ~NoScope() { heap_scope = s; } };
void heap_begin_run();            // draws pattern and seed from the choices
void heap_end_run();              // throws Violation if a guard zone was overwritten
bool heap_check(const void* p);   // guard zones of one block
}
