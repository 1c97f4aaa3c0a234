// Loading model files from faulty storage.
#include <algorithm>
#include <set>
#include <sys/stat.h>
#include "mace_subject.hpp"
#include "../sim/iofault.hpp"
using namespace sim;

struct Disk {                       // a few path names whose contents come and go
    static constexpr int NP = 3;
    std::string path[NP]; bool file[NP] = {}; bool dir[NP] = {};
    Disk() { for (int i = 0; i < NP; ++i) { path[i] = "vmodel." + std::to_string(getpid()) + "." + std::to_string(i) + ".json"; clear(i); } }
    ~Disk() { for (int i = 0; i < NP; ++i) clear(i); }
    void clear(int i) { ::unlink(path[i].c_str()); ::rmdir(path[i].c_str()); file[i] = dir[i] = false; }
    void put(int i, const std::string& c, bool in_place) {
        if (dir[i] || !in_place) clear(i);
        FILE* f = std::fopen(path[i].c_str(), "w"); if (!f) fail("machinery:scratch", "cannot write scratch file");
        std::fwrite(c.data(), 1, c.size(), f); std::fclose(f); file[i] = true;
        struct timespec t[2] = {{1000000000, 0}, {1000000000, 0}}; utimensat(AT_FDCWD, path[i].c_str(), t, 0);   // coarse clock: same time stamp always
    }
    void mkdir_(int i) { clear(i); ::mkdir(path[i].c_str(), 0755); dir[i] = true; }
};

static void verify(mm::Evaluator& e, int n = 2) {
    e.check_header();
    for (int k = 0; k < n; ++k) e.step();
}

static void io_load() {
    io = IoPlan();
    Disk d;
    mm::Limits lim; lim.nel = 2; lim.nch = 3;
    struct Content { mm::Model m; std::string text; };
    std::vector<std::unique_ptr<Content>> models;
    std::vector<std::unique_ptr<mm::Evaluator>> live;
    const int nops = range(3, 12);
    for (int t = 0; t < nops; ++t) {
        ++ctx->stats->steps;
        // which complete model is meant to be on disk
        const int how = (int)choose(6);
        Content* c;
        if (models.empty() || how <= 1) { auto n = std::make_unique<Content>(); n->m = mm::draw_model(lim); n->text = n->m.json(); models.push_back(std::move(n)); c = models.back().get(); }
        else if (how == 2) { auto n = std::make_unique<Content>(*models[choose(models.size())]); for (auto& e : n->m.E0) e = 1 + 7 * double(choose(1000)) / 1000; n->text = n->m.json(); models.push_back(std::move(n)); c = models.back().get(); event("io.same-size-replacement"); }
        else c = models[choose(models.size())].get();
        const int slot = (int)choose(Disk::NP);
        const std::string& full = c->text; const int64_t size = (int64_t)full.size();
        const int64_t lastbrace = (int64_t)full.rfind('}');
        auto offset = [&] { const int k = (int)choose(6); return k == 0 ? (int64_t)choose(40) : k == 1 ? std::max<int64_t>(0, size - 1 - (int64_t)choose(40)) : k == 2 ? std::min<int64_t>(size - 1, (int64_t)(1 + choose(8)) * 4096 + (int64_t)choose(3) - 1) : k == 3 ? std::min<int64_t>(size - 1, (int64_t)(1 + choose(5)) * 8191 + (int64_t)choose(3) - 1) : (int64_t)choose(size); };
        io = IoPlan(); io.match = d.path[slot];
        bool lossy = false;            // bytes of the model cannot all have been read
        bool must_fail = false;
        std::string what = "intact file";
        const bool in_place = chance(1, 2);
        const int kind = (int)choose(14);
        if (kind <= 2) { d.put(slot, full, in_place); }
        else if (kind == 3) { d.put(slot, full, in_place); io.short_reads = true; what = "short reads"; }
        else if (kind == 4) { d.put(slot, full, in_place); io.short_reads = chance(1, 2); io.eintr = true; what = "interrupted reads"; }
        else if (kind == 5) { const int64_t b = offset(); d.put(slot, full.substr(0, b), in_place); lossy = b <= lastbrace; what = "truncated file"; fault("truncated-file"); }
        else if (kind == 6) { const int64_t b = offset(); d.put(slot, full, in_place); io.eof_at = b; io.short_reads = chance(1, 2); lossy = b <= lastbrace; what = "file ends early while being read"; }
        else if (kind == 7) { const int64_t b = offset(); d.put(slot, full, in_place); io.eio_at = b; io.short_reads = chance(1, 2); lossy = b <= lastbrace; what = "read error"; }
        else if (kind == 8) { d.clear(slot); must_fail = true; what = "missing file"; fault("missing-file"); }
        else if (kind == 9) { d.mkdir_(slot); must_fail = true; what = "directory"; fault("directory-in-place-of-file"); }
        else if (kind == 10) { static const int es[] = {EACCES, EIO, ENFILE, EMFILE, EINTR, ENOMEM}; d.put(slot, full, in_place); io.open_errno = es[choose(6)]; must_fail = true; what = "open fails"; }
        else if (kind == 11) { d.put(slot, std::string(), in_place); must_fail = true; what = "empty file"; fault("empty-file"); }
        else if (kind == 12) { int64_t b = std::min(offset(), lastbrace); std::string z = full; for (int64_t k = b; k < size; ++k) z[k] = 0; d.put(slot, z, in_place); lossy = true; what = "tail of zero bytes"; fault("lost-tail-writes"); }
        else { int64_t b = std::min(offset(), lastbrace), e = std::min<int64_t>(size, b + 1 + (int64_t)choose(600)); std::string z = full; for (int64_t k = b; k < e; ++k) z[k] = 0; d.put(slot, z, in_place); lossy = true; what = "hole of zero bytes"; fault("lost-write-inside"); }
        auto e = std::make_unique<mm::Evaluator>(c->m, full);
        io.on = true; bool ok = false; std::string err;
        try { e->open(d.path[slot]); ok = true; } catch (const std::exception& x) { heap_scope = 0; err = x.what(); }
        io.on = false;
        if (io.n_short) fault("short-read"); if (io.n_eintr) fault("interrupted-read"); if (io.n_eio) fault("read-error"); if (io.n_eof) fault("early-end-of-file"); if (io.n_open) fault("open-failure");
        note("load of a " + std::to_string(size) + "-byte model: " + what + (ok ? " -> loaded" : " -> refused"));
        if (io.open_errno && !io.n_open) must_fail = false;
        if ((kind == 6 || kind == 7) && !io.n_eof && !io.n_eio) lossy = false;     // the fault was never met
        if (ok && must_fail) fail("io:loaded-nothing", "a model was loaded although: " + what);
        if (ok) { event("io.loaded"); verify(*e, lossy ? 10 : 2); }          // whatever was lost, it must be the complete model
        else {
            event("io.refused");
            const bool unread = (kind == 6 && io.n_eof) || (kind == 7 && io.n_eio);
            if (!lossy && !must_fail && !unread && !io.open_errno) fail("io:refused-intact", "an intact model was refused (" + what + "): " + err);
        }
        if (ok) { live.push_back(std::move(e)); if (live.size() > 2) live.erase(live.begin()); }
        else e.reset();
        if (!live.empty() && chance(2, 3)) live[choose(live.size())]->step();    // others keep working
        if (!ok && chance(1, 2)) {                                              // the fault goes away
            d.put(slot, full, in_place); auto e2 = std::make_unique<mm::Evaluator>(c->m, full);
            try { e2->open(d.path[slot]); } catch (const std::exception& x) { heap_scope = 0; fail("io:no-recovery", std::string("an intact model was refused after an earlier failed load: ") + x.what()); }
            verify(*e2); event("io.recovered");
        }
    }
}
int main(int c, char** v) { return harness_main(c, v, {{"io_load", io_load}}); }
