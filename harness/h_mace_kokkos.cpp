// The Kokkos MACE evaluator (real kernels, both precisions) on the simulated Kokkos
// backend, next to the reference of the model file it loaded.
#include <algorithm>
#include <memory>
#include <set>
#include "../sim/sched.hpp"
#include "mace_common.hpp"
#include "mace_kokkos.hpp"
using namespace sim;
typedef std::vector<double> V;

template <class T, class U> static Kokkos::View<T*> dev(const std::vector<U>& v, const char* n) {
    Kokkos::View<T*> d(n, v.size()); auto h = Kokkos::create_mirror_view(d);
    for (size_t i = 0; i < v.size(); ++i) h(i) = (T)v[i];
    Kokkos::deep_copy(d, h); return d;
}
static V host(const Kokkos::View<double*>& d, size_t n, const char* what) {
    if (d.extent(0) < n) fail("mace-kokkos:size", std::string(what) + " has " + std::to_string(d.extent(0)) + " entries, expected at least " + std::to_string(n));
    auto h = Kokkos::create_mirror_view(d); Kokkos::deep_copy(h, d);
    V v(n); for (size_t i = 0; i < n; ++i) v[i] = h(i); return v;
}
struct Subject {
    mm::Model m; std::string text; std::vector<mm::Struct> past; int max_atoms = 4, max_neigh = 10;
    explicit Subject(const mm::Limits& lim) : m(mm::draw_model(lim)), text(m.json()) {}
    virtual ~Subject() {}
    virtual void load() = 0;
    virtual void eval(const mm::Struct& s) = 0;
    void step() {
        const int how = (int)choose(5);
        mm::Struct s = how < 3 || past.empty() ? mm::draw_struct(m, max_atoms, max_neigh) : how == 3 ? past.back() : past[choose(past.size())];
        if (how >= 3 && !past.empty()) { event("mace-kokkos.variant-of-earlier-structure"); s = mm::mutate(m, s); }
        past.push_back(s); if (past.size() > 6) past.erase(past.begin());
        eval(s);
    }
};
template <class P> struct Eval : Subject {
    std::unique_ptr<MACEKokkos<P>> p;
    using Subject::Subject;
    void load() override {
        mm::File f(text); event("mace-kokkos.load"); std::unique_ptr<MACEKokkos<P>> q;
        { Scope sc; q = std::make_unique<MACEKokkos<P>>(f.path); p = std::move(q); q.reset(); }
        if (p->num_elements != m.nel || p->num_channels != m.nch || p->l_max != m.l_max || p->L_max != m.L_max || p->r_cut != m.r_cut) fail("mace-kokkos:header", "loaded model information differs from the file");
    }
    void eval(const mm::Struct& s) override {
        Kokkos::View<const int*> ty = dev<int>(s.type, "node_types"), nn = dev<int>(s.nn, "num_neigh"), idx = dev<int>(s.idx, "neigh_indices"), nty = dev<int>(s.ntype, "neigh_types");
        Kokkos::View<const double*> xyz = dev<double>(s.xyz, "xyz"), r = dev<double>(s.r, "r");
        const int op = (int)choose(8);
        if (op <= 5) { event(sizeof(P) == 4 ? "mace-kokkos.compute-float" : "mace-kokkos.compute"); Scope sc; p->compute_node_energies_forces(s.n, ty, nn, idx, nty, xyz, r); }
        else {                                        // through the public stages, as the pair style does
            event("mace-kokkos.staged"); Scope sc; auto& q = *p;
            if ((int)q.node_energies.size() < s.n) Kokkos::realloc(q.node_energies, s.n);
            if (q.node_forces.size() < s.xyz.size()) Kokkos::realloc(q.node_forces, s.xyz.size());
            Kokkos::deep_copy(q.node_energies, 0.0); Kokkos::deep_copy(q.node_forces, 0.0);
            if (q.has_zbl) q.zbl.compute_ZBL(s.n, ty, nn, nty, q.atomic_numbers, r, xyz, q.node_energies, q.node_forces);
            if (op == 6) { q.compute_Y(xyz); q.compute_R0(s.n, ty, nn, nty, r); } else { q.compute_R0(s.n, ty, nn, nty, r); q.compute_Y(xyz); }
            q.compute_A0(s.n, ty, nn, nty); q.compute_A0_scaled(s.n, ty, nn, nty, r); q.compute_M0(s.n, ty); q.compute_H1(s.n);
            q.compute_R1(s.n, ty, nn, nty, r);
            q.compute_Phi1(s.n, nn, idx); q.compute_A1(s.n); q.compute_A1_scaled(s.n, ty, nn, nty, r); q.compute_M1(s.n, ty); q.compute_H2(s.n, ty);
            q.compute_readouts(s.n, ty);
            q.reverse_H2(s.n, ty, false); q.reverse_M1(s.n, ty); q.reverse_A1_scaled(s.n, ty, nn, nty, xyz, r); q.reverse_A1(s.n);
            q.reverse_Phi1(s.n, nn, idx, xyz, r, false, false);
            q.reverse_H1(s.n); q.reverse_M0(s.n, ty); q.reverse_A0_scaled(s.n, ty, nn, nty, xyz, r); q.reverse_A0(s.n, ty, nn, nty, xyz, r);
        }
        if (s.n == 0) event("mace-kokkos.empty-structure"); else if (s.r.empty()) event("mace-kokkos.no-neighbours");
        const mm::Result ref = mm::reference(m, s);
        mm::compare(sizeof(P) == 4 ? "mace-kokkos-float" : "mace-kokkos", ref, host(p->node_energies, s.n, "node_energies"), host(p->node_forces, s.xyz.size(), "node_forces"), sizeof(P) == 4 ? 2e-4 : 1e-8);
    }
};
static void kmace() {
    ksim::begin_run((int)choose(9));
    set_preempt_scale(0);
    const uint64_t s0 = sched_switches;
    const int nobj = chance(1, 5) ? 2 : 1; std::vector<std::unique_ptr<Subject>> obj;
    mm::Limits lim; lim.nel = 3; lim.nch = 3;
    if (chance(1, 6)) { lim.l_max = 3; lim.L_max = 2; lim.nch = 2; } else if (chance(1, 10)) { lim.nch = 12; lim.l_max = 1; }
    for (int i = 0; i < nobj; ++i) { if (chance(1, 4)) obj.push_back(std::make_unique<Eval<float>>(lim)); else obj.push_back(std::make_unique<Eval<double>>(lim)); }
    for (auto& o : obj) o->load();
    const int nops = range(1, 7);
    for (int t = 0; t < nops; ++t) {
        auto& o = *obj[choose(nobj)]; o.max_atoms = chance(1, 10) ? (chance(1, 4) ? 26 : 9) : 4; o.max_neigh = chance(1, 10) ? 40 : 10;
        note("structure for model with " + std::to_string(o.m.nel) + " elements, " + std::to_string(o.m.nch) + " channels");
        o.step(); ++ctx->stats->steps;
    }
    obj.clear(); Kokkos::fence();
    event("context-switches", sched_switches - s0); ctx->stats->faults["preemption"] += sched_switches - s0;
}
int main(int c, char** v) { return harness_main(c, v, {{KSIM_DEVICE ? "mace_kokkos_device" : "mace_kokkos_host", kmace}}); }
