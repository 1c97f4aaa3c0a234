// Deterministic-simulation core: every decision of a simulated run is drawn through
// sim::choose(), so a run is a pure function of its list of choices.  A list comes
// from a seed (record mode) or from a replay file (replay mode).
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace sim {

struct Violation {
    std::string cls;  // stable class, used to compare replays
    std::string msg;
};

[[noreturn]] inline void fail(const std::string& cls, const std::string& msg) {
    throw Violation{cls, msg};
}

// ---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s[4];
    static uint64_t splitmix(uint64_t& x) {
        uint64_t z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    void seed(uint64_t x) { for (auto& v : s) v = splitmix(x); }
    uint64_t next() {
        auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
        const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
};

extern uint32_t* stream_to;      // shared memory that receives the choices as they are made

struct Source {
    bool replaying = false;
    std::vector<uint32_t> choices;   // recorded (record mode) or to be replayed
    std::vector<uint32_t> used;      // what this run actually consumed
    size_t pos = 0;
    Rng rng;
    size_t max_choices = 4000000;
    uint32_t choose(uint64_t n) {    // value in [0,n)
        if (n <= 1) return 0;
        uint32_t v;
        if (replaying) {
            v = pos < choices.size() ? uint32_t(choices[pos] % n) : 0;
        } else {
            v = uint32_t(rng.next() % n);
        }
        ++pos;
        used.push_back(v);
        if (stream_to) { stream_to[used.size()] = v; stream_to[0] = (uint32_t)used.size(); }
        if (used.size() > max_choices) fail("machinery:choice-budget", "too many choices");
        return v;
    }
};

struct Stats {
    std::map<std::string, uint64_t> counters;      // events, per kind
    std::map<std::string, uint64_t> faults;        // injected faults, per kind
    std::unordered_set<uint64_t> distinct;         // distinct nontrivial cases / schedules
    std::unordered_set<uint64_t> states;           // distinct abstract states reached
    uint64_t steps = 0;                            // simulated steps (time)
    uint64_t evaluations = 0;                      // results compared with an oracle
};

struct Ctx {
    Source src;
    Stats* stats = nullptr;
    uint64_t hash = 1469598103934665603ull;        // over everything observed in the run
    uint64_t sched_hash = 1469598103934665603ull;  // over scheduling/fault decisions only
    std::vector<std::string> trace;                // human-readable, kept only when tracing
    bool tracing = false;
    void mix(uint64_t v) { hash = (hash ^ v) * 1099511628211ull; hash ^= hash >> 29; }
    void mix_sched(uint64_t v) { sched_hash = (sched_hash ^ v) * 1099511628211ull; sched_hash ^= sched_hash >> 31; }
};

extern Ctx* ctx;   // the current run
extern uint64_t run_id;   // changes with every run (for per-run state of harnesses)
// executes body again with the same choices (used to tell a leak from a one-time cache)
void rerun(const std::function<void()>& body, size_t from);

inline uint32_t choose(uint64_t n) { return ctx->src.choose(n); }
// inclusive integer range; 0 in the choice list is lo
inline int range(int lo, int hi) { return lo + int(choose(uint64_t(hi - lo) + 1)); }
inline bool chance(int num, int den) { return int(choose(den)) >= den - num; }  // 0 => false
inline double real(double lo, double hi) {
    return lo + (hi - lo) * (double(choose(1u << 20)) / double(1u << 20));
}
inline double sreal(double a) {   // symmetric; 0 => +a/16
    const uint32_t v = choose(1u << 20);
    const double u = 1.0/16 + (15.0/16) * (double(v >> 1) / double(1u << 19));
    return (v & 1) ? -a*u : a*u;
}
inline void event(const std::string& k, uint64_t n = 1) { ctx->stats->counters[k] += n; }
inline void fault(const std::string& k) { ctx->stats->faults[k] += 1; ctx->mix_sched(std::hash<std::string>()(k)); }
inline void note(const std::string& s) { if (ctx->tracing) ctx->trace.push_back(s); }
inline void observe(double d) { uint64_t u; std::memcpy(&u, &d, 8); ctx->mix(u); }
inline void observe(uint64_t u) { ctx->mix(u); }

inline std::string num(double d) { char b[64]; std::snprintf(b, 64, "%.12g", d); return b; }

// compare a result of the code under test with its oracle
inline void expect_close(const std::string& cls, const std::string& what, double got, long double want,
                         double scale, double rtol) {
    ++ctx->stats->evaluations;
    observe(got);
    const long double err = (long double)got - want;
    const long double tol = rtol * (long double)(scale > 1e-30 ? scale : 1e-30);
    if (!(err <= tol && err >= -tol))   // also true for NaN
        fail(cls, what + ": got " + num(got) + " expected " + num((double)want) + " (scale " + num(scale) + ")");
}
template <class V, class W>
void expect_all_close(const std::string& cls, const std::string& what, const V& got, const W& want, double rtol,
                      double minscale = 1e-3) {
    if (got.size() != want.size())
        fail(cls + ":size", what + ": got " + std::to_string(got.size()) + " values, expected " + std::to_string(want.size()));
    double scale = minscale;
    for (size_t i = 0; i < want.size(); ++i) scale = std::max(scale, std::fabs(double(want[i])));
    for (size_t i = 0; i < want.size(); ++i)
        expect_close(cls, what + "[" + std::to_string(i) + "]", got[i], want[i], scale, rtol);
}

// ---------------------------------------------------------------- harness interface
struct Harness {
    const char* name;
    void (*run)();   // one simulated run; draws from sim::choose, throws Violation
};
int harness_main(int argc, char** argv, const std::vector<Harness>& hs);

}  // namespace sim
