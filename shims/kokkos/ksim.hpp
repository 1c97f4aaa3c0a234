// Runtime of the simulated Kokkos backend (implemented in ksim.cpp, which is compiled
// without preemption points).  The simulator decides, per kernel: when an asynchronous
// kernel really runs, how many workers and teams run at once, how iterations are dealt
// out, in which order, and at which memory accesses workers are preempted.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace ksim {
struct Team {
    int rank = 0, size = 1;                    // league rank, team size
    long league = 0;
    int arrived = 0; uint64_t phase = 0;
    std::vector<char> scratch[2]; size_t used[2] = {0, 0};
    size_t team_bytes[2] = {0, 0};
    std::vector<const void*> slot;
    bool strided = false;                      // how nested ranges are dealt out
    int lanes = 0;                             // 0 in order, 1 backwards, 2.. that many concurrent lanes
};
struct Member { Team* t; int id; size_t used[2] = {0, 0}; };
extern int kernel_depth;                       // >0 while kernel code runs
inline bool in_kernel() { return kernel_depth > 0; }
void submit(const char* what, std::function<void()> run, bool wait);   // asynchronous unless wait
void fence();
long pending();
void barrier(Member&);
// body(worker, begin, end, step)
using Chunk = std::function<void(int, long, long, long)>;
int range_workers(long n);                     // draws a plan for the next for_range and returns its workers
void for_range(long n, const Chunk&);
void for_league(long n, int team_size, const size_t bytes[2], const size_t thread_bytes[2], const std::function<void(Member&)>&);
void for_lanes(Member&, long n, const Chunk&); // iterations of a vector loop of one team thread
int lane_workers(Member&, long n);
void my_share(Member&, long n, long& b, long& e, long& step);
void* scratch(Member&, int level, size_t bytes, bool per_team);
struct Rec;                                    // one allocation shared by views
Rec* make_rec(const char* label, size_t bytes, size_t n, int space, void (*destroy)(void*, size_t));
bool hold(Rec*);                               // false inside kernels, where copies do not count
void drop(Rec*);
int use_count(Rec*); const char* label(Rec*); int space(Rec*); void* memory(Rec*);
void zero(void*, size_t);
int scan_chunks(long n);
void for_serial(const std::function<void()>&);
void oob(Rec*, int dim, long i, size_t n);
void bad_access(const char* label, const char* what);
void error(const std::string&);                // Kokkos would throw or abort here
struct AtomicGuard { AtomicGuard(); ~AtomicGuard(); };
void begin_run(int intensity);                 // drawn by the harness; 0 = everything in order on one worker
extern bool initialized;
}
