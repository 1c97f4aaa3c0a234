// Drivers shared by the CPU and the Kokkos pair style.
#pragma once
#include "lmp.hpp"
namespace lw {
struct Job {
    World w; mm::Model m; std::unique_ptr<mm::File> file; int nprocs = 1; std::string mode;
    bool failed_model = false;
    explicit Job(Backend& b) : w(b) {}
    static mm::Limits limits() { mm::Limits lim; lim.nel = 3; lim.nch = 3; if (sim::chance(1, 8)) { lim.l_max = 3; lim.L_max = 2; } return lim; }
    void draw_model() { m = mm::draw_model(limits()); w.m = &m; file = std::make_unique<mm::File>(m.json()); w.model_path = file->path; draw_types(); }
    void draw_types() { if (w.ranks.empty()) w.ntypes = sim::range(1, 4); w.el.clear(); for (int t = 0; t < w.ntypes; ++t) w.el.push_back((int)sim::choose(m.nel)); }
    void draw_system(int maxn) {
        w.g = mm::Gen{uint64_t(sim::choose(1u << 28)) * 2654435761u + 3};
        const int shape = (int)sim::choose(6);
        for (int c = 0; c < 3; ++c) { w.per[c] = shape < 3 ? true : shape == 3 ? false : sim::chance(1, 2); w.L[c] = m.r_cut * sim::real(0.9, 2.6); w.origin[c] = sim::chance(1, 3) ? w.g.sym(20) : 0; }
        w.skin = sim::chance(1, 6) ? 0.0 : sim::real(0.02, 0.4) * m.r_cut;
        w.chain = false; w.atoms.clear(); const int n = sim::chance(1, 20) ? 0 : sim::chance(1, 20) ? 3 * sim::range(maxn / 3 + 1, maxn) : sim::range(1, maxn); for (int i = 0; i < n; ++i) w.add_atom();
        if (sim::chance(1, 3) && n > 1) { sim::event("lmp.clustered"); for (auto& a : w.atoms) for (int c = 0; c < 3; ++c) a.x[c] = w.origin[c] + (a.x[c] - w.origin[c]) * (c == 0 ? 0.45 : 0.7); }   // leaves ranks without atoms
        if (sim::chance(1, 3) && n > 2) {                             // a chain whose links are about one cutoff long: the reach of messages and halos is what matters
            sim::event("lmp.chain"); const int d = (int)sim::choose(3); const double step = m.r_cut * sim::real(0.9, 1.0) + w.skin * sim::real(0, 0.45); w.axis = d; w.chain = true; w.L[d] = step * (n + (w.per[d] ? w.g.below(2) : 0)); if (w.per[d] && sim::chance(1, 2)) w.L[d] += m.r_cut * sim::real(0, 2);
            double at[3]; for (int c = 0; c < 3; ++c) { if (c != d && w.per[c]) w.L[c] = std::max(w.L[c], 1.6 * m.r_cut); at[c] = w.origin[c] + w.L[c] * w.g.u(); } at[d] = w.origin[d] + 1e-3;
            for (int i = 0; i < n; ++i) for (int c = 0; c < 3; ++c) w.atoms[i].x[c] = at[c] + (c == d ? i * step : 0) + w.g.sym(c == d ? 0.01 : 0.04 * m.r_cut);
        }
        w.excluded.clear(); if (sim::chance(1, 8)) { const int a = 1 + w.g.below(w.ntypes), b = 1 + w.g.below(w.ntypes); w.excluded.insert({std::min(a, b), std::max(a, b)}); sim::event("lmp.excluded-types"); }
    }
    std::vector<std::string> draw_mode() {
        static const char* const names[] = {"", "mpi_message_passing", "no_mpi_message_passing", "no_domain_decomposition"};
        const int k = (int)sim::choose(nprocs == 1 ? 4 : 3); mode = names[k]; sim::event(std::string("lmp.mode:") + (k ? names[k] : "default"));
        return k ? std::vector<std::string>{mode} : std::vector<std::string>{};
    }
    void launch() {
        nprocs = (int)std::array<int, 8>{1, 2, 3, 4, 2, 6, 1, 8}[sim::choose(8)];
        w.map_user = (int)std::array<int, 3>{Atom::MAP_YES, Atom::MAP_ARRAY, Atom::MAP_HASH}[sim::choose(3)];
        w.shuffle = sim::chance(5, 6);
        w.start(nprocs); if (sim::chance(1, 6)) for (auto& r : w.ranks) r->comm->cutghostuser = m.r_cut * 2.5;
        w.pair_style(draw_mode()); w.pair_coeff(); w.init(); w.decompose(); w.reneighbor();
        sim::event("lmp.ranks:" + std::to_string(nprocs));
    }
    void evaluate() {
        static const int ef[] = {1, 3, 2, 0, 1, 3}, vf[] = {1, 0, 2, 0, 1, 2};
        const int e = ef[sim::choose(6)]; int v = vf[sim::choose(6)]; if (sim::chance(1, 60)) v |= 4;
        sim::note("compute eflag=" + std::to_string(e) + " vflag=" + std::to_string(v) + " atoms=" + std::to_string(w.atoms.size()) + " ranks=" + std::to_string(nprocs) + " mode=" + mode);
        for (auto& r : w.ranks) { if (!r->atom->nlocal) sim::event("lmp.empty-rank"); }
        if (!w.compute(e, v)) { if (!(v & 12)) sim::fail(std::string(w.be.tag()) + ":error", "error reported for a supported request: " + w.error_text); sim::event("lmp.refused"); return; }
        w.check(e, v); sim::event("lmp.evaluations");
    }
};
// one system, many layouts
inline void layouts(Backend& b) {
    Job j(b); j.draw_model(); j.draw_system(9);
    const int n = sim::range(1, 3); const uint64_t s0 = sim::sched_switches;
    for (int k = 0; k < n; ++k) { j.launch(); j.evaluate(); if (sim::chance(1, 2)) { j.w.jiggle(1); j.evaluate(); } sim::ctx->stats->faults["rank-layout"]++; }
    sim::ctx->stats->faults["rank-switch"] += sim::sched_switches - s0; sim::ctx->stats->faults["message-delivery-order"] += j.w.messages;
}
// one job, many steps
inline void steps(Backend& b, int maxn = 7) {
    Job j(b); j.draw_model(); j.draw_system(maxn); j.launch();
    World& w = j.w; const int n = sim::range(3, 14); const uint64_t s0 = sim::sched_switches;
    std::vector<std::unique_ptr<mm::Model>> keep;
    for (int t = 0; t < n; ++t) {
        j.evaluate();
        auto& F = sim::ctx->stats->faults;
        switch (sim::choose(12)) {
          case 0: if (sim::chance(1, 2)) break; [[fallthrough]];                                                   // same positions again
          case 1: case 2: w.jiggle(1); break;
          case 3: w.jiggle(1); w.reneighbor(); break;                                                              // reorder, migrate
          case 4: for (auto& a : w.atoms) if (sim::chance(1, 2)) w.place(a, int(&a - &w.atoms[0])); w.reneighbor(); F["atoms-migrate"]++; break;
          case 5: { const int k = sim::range(1, 3); for (int i = 0; i < k && (int)w.atoms.size() < maxn + 4; ++i) w.add_atom(); w.reneighbor(); F["atoms-added"]++; break; }
          case 6: { const int k = sim::range(1, 4); for (int i = 0; i < k && !w.atoms.empty(); ++i) w.atoms.erase(w.atoms.begin() + sim::choose(w.atoms.size())); w.reneighbor(); F["atoms-removed"]++; break; }
          case 7: for (auto& a : w.atoms) if (sim::chance(1, 2)) a.type = 1 + w.g.below(w.ntypes); w.reneighbor(); F["types-changed"]++; break;
          case 8: w.decompose(); w.reneighbor(); F["rebalanced"]++; break;
          case 9: if (sim::chance(1, 3)) w.skin = sim::real(0.02, 0.4) * j.m.r_cut; w.init(); w.reneighbor(); F["re-init"]++; break;
          case 10: if (sim::chance(1, 2)) j.draw_model(); else j.draw_types(); w.pair_coeff(); w.init(); w.reneighbor(); F["pair_coeff-again"]++; break;
          case 11: if (sim::chance(1, 2)) { w.pair_style(j.draw_mode()); w.pair_coeff(); w.init(); w.reneighbor(); F["pair_style-again"]++; } else { for (int c = 0; c < 3; ++c) { const double f = sim::real(0.95, 1.06); w.L[c] *= f; for (auto& a : w.atoms) a.x[c] = w.origin[c] + (a.x[c] - w.origin[c]) * f; } w.reneighbor(); F["box-changed"]++; } break;
        }
    }
    j.evaluate();
    sim::ctx->stats->faults["rank-switch"] += sim::sched_switches - s0; sim::ctx->stats->faults["message-delivery-order"] += w.messages;
}

// set-ups the pair style cannot honour, then correct ones on the same objects
inline void setups(Backend& b) {
    Job j(b); j.draw_model(); j.draw_system(5); World& w = j.w;
    j.nprocs = sim::range(1, 4); w.start(j.nprocs);
    w.pair_style(j.draw_mode()); const std::vector<std::string> good = w.pair_args;
    const std::string t = w.be.tag();
    const int n = sim::range(1, 4);
    auto coeff = [&](const std::vector<std::string>& el) {          // true if every rank accepted, false if every rank refused
        int bad = 0; std::string text;
        for (auto& r : w.ranks) { std::vector<std::string> a = {"*", "*", w.model_path}; a.insert(a.end(), el.begin(), el.end()); std::vector<char*> p; for (auto& s : a) p.push_back(s.data()); try { r->pair->coeff((int)p.size(), p.data()); } catch (const LammpsError& e) { ++bad; } catch (const std::exception& e) { ++bad; } }
        if (bad && bad != j.nprocs) sim::fail(t + ":partial-error", "only some ranks refused a pair_coeff command");
        return !bad;
    };
    std::vector<std::string> right; for (int e : w.el) right.push_back(ELEMENTS[j.m.Z[e] - 1]);
    for (int k = 0; k < n; ++k) {
        std::vector<std::string> el = right; const int how = (int)sim::choose(9); bool accepted = true; std::string what;
        auto style = [&](const std::vector<std::string>& args) { try { w.pair_style(args); return true; } catch (const LammpsError&) { return false; } catch (const std::exception&) { return false; } };
        auto run_init = [&] { int bad = 0; for (auto& r : w.ranks) { r->neighbor->requests.clear(); try { r->pair->init(); } catch (const LammpsError&) { ++bad; } } if (bad && bad != j.nprocs) sim::fail(t + ":partial-error", "only some ranks refused to initialise"); return !bad; };
        if (how == 0) { what = "an unknown mode"; static const char* const s[] = {"mpi", "no_domain_decomposition ", "NO_MPI_MESSAGE_PASSING", "", "default"}; accepted = style({s[sim::choose(5)]}); }
        else if (how == 1) { what = "two pair_style arguments"; accepted = style({"mpi_message_passing", sim::chance(1, 2) ? "no_mpi_message_passing" : "1"}); }
        else if (how == 2) { if (j.nprocs == 1) continue; what = "no_domain_decomposition on several ranks"; accepted = style({"no_domain_decomposition"}); }
        else if (how == 3) { what = "a name that is no element"; static const char* const s[] = {"Xx", "h", "NULL", "", "1", "CARBON"}; el[sim::choose(el.size())] = s[sim::choose(6)]; accepted = coeff(el); }
        else if (how == 4) {
            what = "an element the model does not have"; int z = 1 + (int)sim::choose(90); while (std::count(j.m.Z.begin(), j.m.Z.end(), z)) ++z;
            el[sim::choose(el.size())] = ELEMENTS[z - 1]; accepted = coeff(el);
        }
        else if (how == 5) { what = "fewer elements than atom types"; el.resize(sim::choose(el.size())); accepted = coeff(el); }
        else if (how == 6) { what = "newton pair off"; if (!coeff(right)) sim::fail(t + ":error", "a correct pair_coeff command was refused"); for (auto& r : w.ranks) r->force->newton_pair = 0; accepted = run_init(); for (auto& r : w.ranks) r->force->newton_pair = 1; }
        else if (how == 7) {
            what = "no atom map"; if (!coeff(right)) sim::fail(t + ":error", "a correct pair_coeff command was refused");
            for (auto& r : w.ranks) r->atom->map_user = Atom::MAP_NONE; accepted = run_init();
            if (accepted) { w.no_map = true; w.init(); w.decompose(); w.reneighbor(); j.evaluate(); w.no_map = false; accepted = false; }      // a mode that needs no map may run without one
            for (auto& r : w.ranks) r->atom->map_user = Atom::MAP_YES;
        }
        else { what = "a model file that does not exist"; std::string keep = w.model_path; w.model_path = "nowhere.json"; accepted = coeff(right); w.model_path = keep; }
        sim::ctx->stats->faults["bad-setup: " + what]++; sim::note("bad set-up: " + what); ++sim::ctx->stats->evaluations; sim::observe(uint64_t(how * 2 + accepted));
        if (accepted) sim::fail(t + ":accepted", "the pair style accepted " + what);
        if (how <= 2) w.pair_style(good);
    }
    if (!coeff(right)) sim::fail(t + ":error", "a correct pair_coeff command was refused");
    w.init(); w.decompose(); w.reneighbor(); j.evaluate(); w.jiggle(1); j.evaluate();
}
}
