// The serial MACE evaluator (real code) next to its reference model.
#pragma once
#include <memory>
#include "mace.hpp"
#include "mace_common.hpp"
namespace mm {
constexpr double RTOL = 1e-8;
struct Evaluator {
    Model m; std::unique_ptr<MACE> p; int max_atoms = 7;
    std::string text; int evals = 0;
    explicit Evaluator(const Limits& lim = Limits()) : m(draw_model(lim)), text(m.json()) {}
    Evaluator(const Model& mm_, const std::string& t) : m(mm_), text(t) {}
    void open(const std::string& path) { sim::event("mace.load"); std::unique_ptr<MACE> q; { sim::Scope sc; q = std::make_unique<MACE>(path); } p = std::move(q); }
    void load() { File f(text); sim::event("mace.load"); std::unique_ptr<MACE> q; { sim::Scope sc; q = std::make_unique<MACE>(f.path); } p = std::move(q); check_header(); }
    void check_header() {
        if (p->num_elements != m.nel || p->num_channels != m.nch || p->l_max != m.l_max || p->L_max != m.L_max || p->r_cut != m.r_cut || p->atomic_numbers != m.Z) sim::fail("mace:header", "loaded model information differs from the file");
    }
    std::vector<Struct> past; int max_neigh = 24;
    Struct next() {
        const int how = (int)sim::choose(5);
        Struct s = how < 3 || past.empty() ? draw_struct(m, max_atoms, max_neigh) : how == 3 ? past.back() : past[sim::choose(past.size())];
        if (how >= 3 && !past.empty()) { sim::event("mace.variant-of-earlier-structure"); s = mutate(m, s); }
        past.push_back(s); if (past.size() > 6) past.erase(past.begin());
        return s;
    }
    void step() {
        if (!p) { load(); return; }
        Struct s = next();
        const int op = (int)sim::choose(8);
        if (op <= 4) { sim::event("mace.compute"); sim::Scope sc; p->compute_node_energies_forces(s.n, s.type, s.nn, s.idx, s.ntype, s.xyz, s.r); }
        else staged(s, op);
        ++evals;
        if (s.n == 0) sim::event("mace.empty-structure"); else if (s.r.empty()) sim::event("mace.no-neighbours");
        Result ref = reference(m, s);
        compare("mace", ref, p->node_energies, p->node_forces, RTOL);
    }
    // the same evaluation through the public stages
    void staged(const Struct& s, int how) {
        sim::event("mace.staged"); sim::Scope sc; MACE& q = *p;
        q.node_energies.assign(s.n, 0.0); q.node_forces.assign(s.xyz.size(), 0.0);
        if (q.has_zbl) q.zbl.compute_ZBL(s.n, s.type, s.nn, s.ntype, q.atomic_numbers, s.r, s.xyz, q.node_energies, q.node_forces);
        auto y = [&] { q.compute_Y(s.xyz); }; auto r0 = [&] { q.compute_R0(s.n, s.type, s.nn, s.ntype, s.r); }; auto r1 = [&] { q.compute_R1(s.n, s.type, s.nn, s.ntype, s.r); };
        if (how == 5) { y(); r0(); r1(); } else if (how == 6) { r1(); r0(); y(); } else { r0(); y(); r1(); }
        q.compute_A0(s.n, s.type, s.nn, s.ntype); q.compute_A0_scaled(s.n, s.type, s.nn, s.ntype, s.r);
        q.compute_M0(s.n, s.type); q.compute_H1(s.n);
        q.compute_Phi1(s.n, s.nn, s.idx); q.compute_A1(s.n); q.compute_A1_scaled(s.n, s.type, s.nn, s.ntype, s.r); q.compute_M1(s.n, s.type); q.compute_H2(s.n, s.type);
        q.compute_readouts(s.n, s.type);
        q.reverse_H2(s.n, s.type, false); q.reverse_M1(s.n, s.type); q.reverse_A1_scaled(s.n, s.type, s.nn, s.ntype, s.xyz, s.r, false); q.reverse_A1(s.n);
        q.reverse_Phi1(s.n, s.nn, s.idx, s.xyz, s.r, false, false);
        q.reverse_H1(s.n); q.reverse_M0(s.n, s.type); q.reverse_A0_scaled(s.n, s.type, s.nn, s.ntype, s.xyz, s.r); q.reverse_A0(s.n, s.type, s.nn, s.ntype, s.xyz, s.r);
    }
};
}
