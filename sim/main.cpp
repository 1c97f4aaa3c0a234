// Driver: seeded runs, replay and minimisation of a choice list.
#include "core.hpp"
#include "heap.hpp"
#include <atomic>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
Ctx* ctx = nullptr;
uint32_t* stream_to = nullptr;
uint64_t run_id = 0;
void rerun(const std::function<void()>& body, size_t from) {
    Source saved = ctx->src; uint32_t* st = stream_to; stream_to = nullptr;
    ctx->src.replaying = true; ctx->src.choices.assign(saved.used.begin() + from, saved.used.end()); ctx->src.pos = 0; ctx->src.used.clear(); ++run_id;
    try { body(); } catch (...) { ctx->src = saved; stream_to = st; throw; }
    ctx->src = saved; stream_to = st;
}

struct Outcome { bool violated = false; std::string cls, msg; uint64_t hash = 0, sched = 0; std::vector<uint32_t> used; std::vector<std::string> trace; };

static Outcome run_one(const Harness& h, uint64_t seed, const std::vector<uint32_t>* choices, Stats& st, bool tracing) {
    Ctx c; ++run_id;
    c.stats = &st;
    c.tracing = tracing;
    if (choices) { c.src.replaying = true; c.src.choices = *choices; }
    else c.src.rng.seed(seed * 0x2545f4914f6cdd1dull + 77);
    ctx = &c;
    Outcome o;
    try {
        heap_begin_run();
        h.run();
        heap_end_run();
    } catch (const Violation& v) {
        heap.active = false; heap.fail_at = -1; heap.on_alloc = nullptr; heap_scope = 0;
        o.violated = true; o.cls = v.cls; o.msg = v.msg;
    } catch (const std::exception& e) {
        heap.active = false; heap.fail_at = -1; heap.on_alloc = nullptr; heap_scope = 0;
        o.violated = true; o.cls = "unexpected-exception"; o.msg = e.what();
    }
    o.hash = c.hash; o.sched = c.sched_hash;
    for (char ch : o.cls) o.hash = (o.hash ^ (unsigned char)ch) * 1099511628211ull;
    o.used = std::move(c.src.used); o.trace = std::move(c.trace);
    ctx = nullptr;
    return o;
}

static std::string jesc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 0x20 || c > 0x7e) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

static void arm_timer(int sec) { struct itimerval t{}; t.it_value.tv_sec = sec; setitimer(ITIMER_REAL, &t, nullptr); }
static void on_alarm(int) { const char m[] = "TIMEOUT\n"; (void)!write(2, m, sizeof m - 1); _exit(124); }

// outcome of a run executed in a forked child, so that crashes and hangs are outcomes too
static Outcome run_forked(const Harness& h, uint64_t seed, const std::vector<uint32_t>* choices, bool tracing, int timeout, Stats* stats = nullptr) {
    char tmpl[] = "/tmp/simfork.XXXXXX";
    int fd = mkstemp(tmpl); unlink(tmpl);
    std::fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); dup2(dn, 1);
        signal(SIGALRM, on_alarm); arm_timer(timeout);
        struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
        Stats st; Outcome o = run_one(h, seed, choices, st, tracing);
        FILE* f = fdopen(dup(fd), "w");
        std::fprintf(f, "%d %llu %llu\n%s\n", o.violated, (unsigned long long)o.hash, (unsigned long long)o.sched, o.cls.c_str());
        if (stats) { o.used.clear(); if (!tracing) o.trace.clear(); }
        std::string m = o.msg; for (auto& ch : m) if (ch == '\n') ch = ' ';
        std::fprintf(f, "%s\n%zu\n", m.c_str(), o.used.size());
        for (auto v : o.used) std::fprintf(f, "%u ", v);
        std::fprintf(f, "\n%zu\n", o.trace.size());
        for (auto t : o.trace) { for (auto& ch : t) if (ch == '\n') ch = ' '; std::fprintf(f, "%s\n", t.c_str()); }
        std::fprintf(f, "%llu %llu %zu %zu\n", (unsigned long long)st.steps, (unsigned long long)st.evaluations, st.counters.size(), st.faults.size());
        for (auto* m : {&st.counters, &st.faults}) for (auto& [k, v] : *m) std::fprintf(f, "%llu %s\n", (unsigned long long)v, k.c_str());
        std::fclose(f);
        _exit(0);
    }
    int st; waitpid(p, &st, 0);
    Outcome o;
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
        o.violated = true;
        o.cls = WIFSIGNALED(st) ? "crash:signal" + std::to_string(WTERMSIG(st))
              : WEXITSTATUS(st) == 124 ? "hang" : "crash:exit" + std::to_string(WEXITSTATUS(st));
        o.msg = "the process died (" + o.cls + ")";
        for (char ch : o.cls) o.hash = (o.hash ^ (unsigned char)ch) * 1099511628211ull;
        if (choices) o.used = *choices;
        close(fd);
        return o;
    }
    lseek(fd, 0, SEEK_SET);
    FILE* f = fdopen(fd, "r");
    char* line = nullptr; size_t cap = 0;
    auto rd = [&] { ssize_t n = getline(&line, &cap, f); std::string s(line, n > 0 ? n : 0); if (!s.empty() && s.back() == '\n') s.pop_back(); return s; };
    unsigned long long a = 0, b = 0; int v = 0;
    std::sscanf(rd().c_str(), "%d %llu %llu", &v, &a, &b);
    o.violated = v; o.hash = a; o.sched = b; o.cls = rd(); o.msg = rd();
    size_t n = std::strtoull(rd().c_str(), nullptr, 10);
    { std::string s = rd(); const char* q = s.c_str(); char* e; for (size_t i = 0; i < n; ++i) { o.used.push_back((uint32_t)std::strtoul(q, &e, 10)); q = e; } }
    n = std::strtoull(rd().c_str(), nullptr, 10);
    for (size_t i = 0; i < n; ++i) o.trace.push_back(rd());
    if (stats) {
        unsigned long long x = 0, y = 0; size_t nc = 0, nf = 0; std::sscanf(rd().c_str(), "%llu %llu %zu %zu", &x, &y, &nc, &nf); stats->steps += x; stats->evaluations += y;
        for (size_t i = 0; i < nc + nf; ++i) { const std::string t = rd(); char* e; const uint64_t c = std::strtoull(t.c_str(), &e, 10); (i < nc ? stats->counters : stats->faults)[*e ? e + 1 : e] += c; }
    }
    std::free(line); std::fclose(f);
    return o;
}

// run from a seed in a child that streams its choices, so that even a crash leaves them
static std::vector<uint32_t> choices_of_seed(const Harness& h, uint64_t seed, int timeout) {
    size_t cap = 4100000;
    uint32_t* sh = (uint32_t*)mmap(nullptr, cap * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); dup2(dn, 1);
        signal(SIGALRM, on_alarm); arm_timer(timeout);
        struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
        stream_to = sh;
        Stats st; run_one(h, seed, nullptr, st, false);
        _exit(0);
    }
    int st; waitpid(p, &st, 0);
    std::vector<uint32_t> r(sh + 1, sh + 1 + sh[0]);
    munmap(sh, cap * 4);
    return r;
}

static std::vector<uint32_t> read_choices(const char* path) {
    FILE* f = std::fopen(path, "r"); if (!f) { std::perror(path); std::exit(2); }
    std::string s; char buf[65536]; size_t n; while ((n = std::fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n); std::fclose(f);
    std::vector<uint32_t> r;
    size_t p = s.find("\"choices\": ["); if (p == std::string::npos) return r;
    p = s.find('[', p) + 1;
    const char* q = s.c_str() + p;
    while (*q && *q != ']') { char* e; if (*q == ',' || *q == ' ' || *q == '\n') { ++q; continue; } r.push_back((uint32_t)std::strtoul(q, &e, 10)); if (e == q) break; q = e; }
    return r;
}

static void print_outcome(const Outcome& o) {
    std::printf("{\"violated\": %s, \"class\": \"%s\", \"message\": \"%s\", \"hash\": \"%016llx\", \"schedule_hash\": \"%016llx\", \"num_choices\": %zu, \"choices\": [",
        o.violated ? "true" : "false", jesc(o.cls).c_str(), jesc(o.msg).c_str(), (unsigned long long)o.hash, (unsigned long long)o.sched, o.used.size());
    for (size_t i = 0; i < o.used.size(); ++i) std::printf("%s%u", i ? "," : "", o.used[i]);
    std::printf("], \"trace\": [");
    for (size_t i = 0; i < o.trace.size() && i < 400; ++i) std::printf("%s\"%s\"", i ? "," : "", jesc(o.trace[i]).c_str());
    std::printf("]}\n");
}

static Outcome shrink(const Harness& h, std::vector<uint32_t> best, const std::string& cls, double seconds, size_t& tried) {
    using clk = std::chrono::steady_clock;
    auto t0 = clk::now();
    auto left = [&] { return seconds - std::chrono::duration<double>(clk::now() - t0).count(); };
    const bool hang = cls == "hang";
    auto attempt = [&](const std::vector<uint32_t>& c, Outcome& o) {
        ++tried;
        o = run_forked(h, 0, &c, false, hang ? 4 : 20);
        return o.violated && o.cls == cls;
    };
    Outcome cur; attempt(best, cur);
    if (!(cur.violated && cur.cls == cls)) return cur;
    auto accept = [&](const std::vector<uint32_t>& c) {
        Outcome o;
        if (attempt(c, o)) { best = (o.used.size() <= c.size() && !o.used.empty()) ? o.used : c; cur = o; return true; }
        return false;
    };
    bool progress = true;
    while (progress && left() > 0) {
        progress = false;
        // cut the tail
        for (size_t k = best.size() / 2; k >= 1 && left() > 0; k /= 2)
            while (best.size() > k) { auto c = best; c.resize(c.size() - k); if (left() > 0 && accept(c)) progress = true; else break; }
        // delete chunks
        for (size_t k = std::max<size_t>(best.size() / 4, 1); k >= 1 && left() > 0; k /= 2) {
            for (size_t i = 0; i + k <= best.size() && left() > 0;) {
                auto c = best; c.erase(c.begin() + i, c.begin() + i + k);
                if (accept(c)) progress = true; else i += k;
            }
            if (k == 1) break;
        }
        // zero chunks, then single values, then halve
        for (size_t k = std::max<size_t>(best.size() / 4, 1); k >= 1 && left() > 0; k /= 2) {
            for (size_t i = 0; i < best.size() && left() > 0; i += k) {
                auto c = best; bool any = false;
                for (size_t j = i; j < std::min(i + k, c.size()); ++j) if (c[j]) { c[j] = 0; any = true; }
                if (any && accept(c)) progress = true;
            }
            if (k == 1) break;
        }
        for (size_t i = 0; i < best.size() && left() > 0; ++i) {
            while (i < best.size() && best[i] > 1 && left() > 0) { auto c = best; c[i] /= 2; if (accept(c)) progress = true; else break; }
        }
    }
    Outcome fin = run_forked(h, 0, &best, true, hang ? 10 : 60);
    fin.used = best;
    return fin;
}

int harness_main(int argc, char** argv, const std::vector<Harness>& hs) {
    if (argc < 3) { std::fprintf(stderr, "usage: %s CMD HARNESS ...\n", argv[0]); return 2; }
    std::string cmd = argv[1], name = argv[2];
    const Harness* h = nullptr;
    // NAME_fresh: every run in a process of its own, so that what happens once per process (first use) is explored too
    const bool fresh = name.size() > 6 && name.compare(name.size() - 6, 6, "_fresh") == 0;
    if (fresh) name.resize(name.size() - 6);
    for (auto& x : hs) if (name == x.name) h = &x;
    if (!h) { std::fprintf(stderr, "no harness %s\n", name.c_str()); return 2; }
    if (cmd == "run") {   // run H first_seed count stride seconds progressfile
        uint64_t seed = std::strtoull(argv[3], nullptr, 10); uint64_t count = std::strtoull(argv[4], nullptr, 10), stride = std::strtoull(argv[5], nullptr, 10);
        double seconds = std::atof(argv[6]);
        int fd = open(argv[7], O_RDWR | O_CREAT | O_TRUNC, 0644); (void)!ftruncate(fd, 4096);
        volatile uint64_t* pg = (uint64_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
        signal(SIGALRM, on_alarm);
        using clk = std::chrono::steady_clock; auto t0 = clk::now();
        Stats st; uint64_t done = 0, mism = 0, twice = 0; std::string samples;
        Outcome bad; uint64_t badseed = 0; bool found = false;
        uint64_t batch = 1469598103934665603ull;
        for (uint64_t i = 0; i < count; ++i, seed += stride) {
            if (std::chrono::duration<double>(clk::now() - t0).count() > seconds) break;
            pg[0] = seed; pg[1] = 1; arm_timer(60);
            Outcome o = fresh ? run_forked(*h, seed, nullptr, i < 2, 50, &st) : run_one(*h, seed, nullptr, st, i < 2);
            if (i < 2) { for (size_t k = 0; k < o.trace.size() && k < 12; ++k) samples += std::string(samples.empty() ? "" : ",") + "\"" + jesc("seed " + std::to_string(seed) + ": " + o.trace[k]) + "\""; }
            st.distinct.insert(o.sched ? o.sched ^ (o.hash * 3) : o.hash);
            batch = (batch ^ o.hash) * 1099511628211ull;
            ++done;
            if (o.violated) { bad = o; badseed = seed; found = true; break; }
            if (i % 53 == 0) {   // determinism: same seed again in this process, same observations
                Stats dummy; Outcome o2 = fresh ? run_forked(*h, seed, nullptr, false, 50, &dummy) : run_one(*h, seed, nullptr, dummy, false); ++twice;
                if (o2.hash != o.hash) ++mism;
            }
        }
        arm_timer(0);
        double wall = std::chrono::duration<double>(clk::now() - t0).count();
        std::printf("{\"runs\": %llu, \"wall_s\": %.3f, \"evaluations\": %llu, \"steps\": %llu, \"distinct\": %zu, \"states\": %zu, \"rerun\": %llu, \"rerun_mismatch\": %llu, \"batch_hash\": \"%016llx\", \"found\": %s, \"seed\": %llu, \"class\": \"%s\", \"message\": \"%s\", \"hash\": \"%016llx\"",
            (unsigned long long)done, wall, (unsigned long long)st.evaluations, (unsigned long long)st.steps, st.distinct.size(), st.states.size(),
            (unsigned long long)twice, (unsigned long long)mism, (unsigned long long)batch, found ? "true" : "false", (unsigned long long)badseed, jesc(bad.cls).c_str(), jesc(bad.msg).c_str(), (unsigned long long)bad.hash);
        std::printf(", \"counters\": {"); bool first = true;
        for (auto& [k, v] : st.counters) { std::printf("%s\"%s\": %llu", first ? "" : ", ", jesc(k).c_str(), (unsigned long long)v); first = false; }
        std::printf("}, \"faults\": {"); first = true;
        for (auto& [k, v] : st.faults) { std::printf("%s\"%s\": %llu", first ? "" : ", ", jesc(k).c_str(), (unsigned long long)v); first = false; }
        std::printf("}, \"samples\": [%s]}\n", samples.c_str());
        pg[1] = 0;
        std::fflush(stdout); _exit(0);
    }
    if (cmd == "one") {   // one H seed : forked, crash-safe
        uint64_t seed = std::strtoull(argv[3], nullptr, 10);
        auto c = choices_of_seed(*h, seed, 40);
        Outcome o = run_forked(*h, 0, &c, true, 40);
        if (o.cls.rfind("crash", 0) == 0 || o.cls == "hang") o.used = c;
        print_outcome(o); std::fflush(stdout); _exit(o.violated ? 1 : 0);
    }
    if (cmd == "replay") {
        auto c = read_choices(argv[3]);
        Outcome o = run_forked(*h, 0, &c, true, 40);
        print_outcome(o); std::fflush(stdout); _exit(o.violated ? 1 : 0);
    }
    if (cmd == "shrink") {  // shrink H file class seconds
        auto c = read_choices(argv[3]); size_t tried = 0;
        Outcome o = shrink(*h, c, argv[4], std::atof(argv[5]), tried);
        print_outcome(o); std::fprintf(stderr, "tried %zu\n", tried); std::fflush(stdout); _exit(o.violated ? 1 : 0);
    }
    return 2;
}
}
