// pair_style symmetrix/mace/kk on simulated LAMMPS jobs and the simulated Kokkos backend.
#include "lmp_drive.hpp"
#include "pair_symmetrix_mace_kokkos.h"
using namespace LAMMPS_NS;
struct Shared { MemoryKokkos memory; };
template <class P, class D = LMPDeviceType> struct KK : lw::Backend {
    using Style = PairSymmetrixMACEKokkos<D, P>;
    bool fwd_host = false, rev_host = false;
    Pair* make_pair(lw::Rank& r) override { return new Style(&r.lmp); }
    const char* tag() override { return sizeof(P) == 4 ? "lmp-kk-float" : "lmp-kk"; }
    double rtol() override { return sizeof(P) == 4 ? 3e-4 : 1e-9; }
    std::unique_ptr<Atom> make_atom(LAMMPS* l) override { static MemoryKokkos mem; l->memoryKK = &mem; auto a = std::make_unique<AtomKokkos>(l); l->atomKK = a.get(); return a; }
    std::unique_ptr<NeighList> make_list() override { return std::make_unique<NeighListKokkos<D>>(); }
    static AtomKokkos& at(lw::Rank& r) { return static_cast<AtomKokkos&>(*r.atom); }
    template <class V> static void garbage(const V& v, int x) { unsigned char* p = (unsigned char*)v.data(); for (size_t i = 0; i < v.span() * sizeof(*v.data()); ++i) p[i] = (unsigned char)(x ? 0xff : 0x3b); }
    void atoms_built(lw::Rank& r) override {
        AtomKokkos& a = at(r); const int n = a.nmax;
        a.k_x = DAT::tdual_x_array("x", n); a.k_f = DAT::tdual_f_array("f", n); a.k_tag = DAT::tdual_tagint_1d("tag", n); a.k_type = DAT::tdual_int_1d("type", n);
        garbage(a.k_x.h_view, 1); garbage(a.k_f.h_view, 1); garbage(a.k_tag.h_view, 0); garbage(a.k_type.h_view, 0);
        garbage(a.k_x.d_view, 1); garbage(a.k_f.d_view, 1); garbage(a.k_tag.d_view, 0); garbage(a.k_type.d_view, 0);
        r.xr.resize(n); r.fr.resize(n); for (int i = 0; i < n; ++i) { r.xr[i] = a.k_x.h_view.data() + 3 * i; r.fr[i] = a.k_f.h_view.data() + 3 * i; }
        a.x = r.xr.data(); a.f = r.fr.data(); a.type = a.k_type.h_view.data(); a.tag = a.k_tag.h_view.data();
    }
    template <class V> static void fill(const V& v, const std::vector<int>& s) { for (size_t i = 0; i < s.size(); ++i) v.data()[i] = s[i]; }
    void list_built(lw::Rank& r) override {
        AtomKokkos& a = at(r); auto& l = static_cast<NeighListKokkos<D>&>(*r.list);
        auto* req = r.neighbor->find_request(r.pair.get());
        if (!(std::is_same_v<D, LMPHostType> ? req->kokkos_host || req->kokkos_device : req->kokkos_device)) sim::fail("lmp-kk:list", "the pair style did not request a list for its execution space");
        const int na = (int)r.refs.size(); int most = 0; for (auto& v : r.neigh) most = std::max(most, (int)v.size()); most += r.w->g.below(3);
        l.maxneighs = most; l.d_neighbors = decltype(l.d_neighbors)("neighlist:neighbors", na + r.w->g.below(3), most); garbage(l.d_neighbors, 0);
        l.d_numneigh = decltype(l.d_numneigh)("neighlist:numneigh", na + 1); l.d_ilist = decltype(l.d_ilist)("neighlist:ilist", na + 1); garbage(l.d_ilist, 0); garbage(l.d_numneigh, 0);
        for (size_t i = 0; i < r.neigh.size(); ++i) { l.d_numneigh.data()[i] = (int)r.neigh[i].size(); for (size_t k = 0; k < r.neigh[i].size(); ++k) { const long ix[2] = {(long)i, (long)k}; l.d_neighbors.data()[l.d_neighbors.raw(ix)] = r.neigh[i][k]; } }
        for (size_t i = 0; i + 1 < r.ilist.size(); ++i) l.d_ilist.data()[i] = r.ilist[i];
        l.ilist = nullptr; l.numneigh = nullptr; l.firstneigh = nullptr;                                  // a Kokkos list has no host copy
        // atom map
        a.map_style = a.map_user == Atom::MAP_NONE ? Atom::MAP_NONE : a.map_user == Atom::MAP_HASH ? Atom::MAP_HASH : Atom::MAP_ARRAY;
        a.k_map_array = DAT::tdual_int_1d(); a.k_map_hash = dual_hash_type();
        const bool on_device = r.w->g.below(2);
        if (a.map_style == Atom::MAP_ARRAY) {
            a.k_map_array = DAT::tdual_int_1d("atom:map_array", a.map_tag_max + 1); garbage(a.k_map_array.h_view, 0); garbage(a.k_map_array.d_view, 0);
            int* p = on_device ? a.k_map_array.d_view.data() : a.k_map_array.h_view.data();
            for (int t = 0; t <= a.map_tag_max; ++t) p[t] = a.map(t);
            if (on_device) a.k_map_array.modify_device(); else a.k_map_array.modify_host();
        } else if (a.map_style == Atom::MAP_HASH) {
            auto& h = a.k_map_hash; h.n = (int)a.sim_map.size(); h.keys = KDual<int*>("hash", h.n + 1); h.vals = KDual<int*>("hash", h.n + 1); int i = 0;
            for (int t = 0; t <= a.map_tag_max; ++t) if (a.map(t) >= 0) { for (int* p : {h.keys.h_view.data(), h.keys.d_view.data()}) p[i] = t; for (int* p : {h.vals.h_view.data(), h.vals.d_view.data()}) p[i] = a.map(t); ++i; }
        }
    }
    // the newest positions, types and forces are on the host or on the device
    template <class K> void place(K& k, bool dev, int x) {
        k.clear_sync_state();
        if (dev) { k.modify_host(); k.sync_device(); k.modify_device(); if constexpr (!std::is_same_v<typename K::t_dev, typename K::t_host>) garbage(k.h_view, x); }
        else k.modify_host();
    }
    void before_compute(lw::Rank& r) override { AtomKokkos& a = at(r); auto& g = r.w->g; place(a.k_x, g.below(2), 1); place(a.k_f, g.below(2), 1); place(a.k_tag, g.below(2), 0); place(a.k_type, g.below(2), 0); }
    void after_compute(lw::Rank& r) override { at(r).sync(Host, X_MASK | F_MASK | TYPE_MASK | TAG_MASK); }
    Style& style(lw::Rank& r) { return static_cast<Style&>(*r.pair); }
    DAT::tdual_double_1d device(const std::vector<double>& b) { DAT::tdual_double_1d d("comm:buf", b.size()); std::copy(b.begin(), b.end(), d.d_view.data()); return d; }
    DAT::tdual_int_1d device(const std::vector<int>& b) { DAT::tdual_int_1d d("comm:sendlist", b.size()); std::copy(b.begin(), b.end(), d.d_view.data()); return d; }
    void back(DAT::tdual_double_1d& d, std::vector<double>& b) { Kokkos::fence(); std::copy(d.d_view.data(), d.d_view.data() + b.size(), b.begin()); }
    int pack_forward(lw::Rank& r, int n, std::vector<int>& l, std::vector<double>& b) override {
        if (fwd_host) return Backend::pack_forward(r, n, l, b);
        auto d = device(b); int pbc[6] = {0}; const int m = style(r).pack_forward_comm_kokkos(n, device(l), d, 0, pbc); back(d, b); return m;
    }
    void unpack_forward(lw::Rank& r, int n, int first, std::vector<double>& b) override { if (fwd_host) { Backend::unpack_forward(r, n, first, b); return; } auto d = device(b); style(r).unpack_forward_comm_kokkos(n, first, d); Kokkos::fence(); }
    int pack_reverse(lw::Rank& r, int n, int first, std::vector<double>& b) override {
        if (rev_host) return Backend::pack_reverse(r, n, first, b);
        auto d = device(b); const int m = style(r).pack_reverse_comm_kokkos(n, first, d); back(d, b); return m;
    }
    void unpack_reverse(lw::Rank& r, int n, std::vector<int>& l, std::vector<double>& b) override { if (rev_host) { Backend::unpack_reverse(r, n, l, b); return; } auto d = device(b); style(r).unpack_reverse_comm_kokkos(n, device(l), d); Kokkos::fence(); }
    void draw() { ksim::begin_run((int)sim::choose(9)); sim::set_preempt_scale(0); fwd_host = sim::chance(1, 2); rev_host = sim::chance(1, 2); sim::event(fwd_host ? "lmp-kk.forward on host" : "lmp-kk.forward on device"); sim::event(rev_host ? "lmp-kk.reverse on host" : "lmp-kk.reverse on device"); }
};
static KK<double> kd; static KK<float> kf;
template <class F> static void with(const F& f) { if (sim::chance(1, 5)) { kf.draw(); f(kf); } else { kd.draw(); f(kd); } Kokkos::fence(); }
#if KSIM_DEVICE
// symmetrix/mace/kk/host on a device build: what fails there today is listed in known-findings.json (passed by check.py)
static bool known(const sim::Violation& v) {
    const char* k = getenv("V_KNOWN"); if (!k) return false; std::string all = k; size_t at = 0;
    while (at < all.size()) { size_t e = all.find('\n', at); if (e == std::string::npos) e = all.size(); const std::string l = all.substr(at, e - at); at = e + 1; const size_t b = l.find('|'), c = b == std::string::npos ? b : l.find('|', b + 1);
        if (c != std::string::npos && l.substr(0, b) == "kklmp_hoststyle_device" && v.cls == l.substr(b + 1, c - b - 1) && v.msg.find(l.substr(c + 1)) != std::string::npos) return true; }
    return false;
}
static KK<double, LMPHostType> kh;
static void hoststyle() { kh.draw(); try { if (sim::chance(1, 2)) lw::layouts(kh); else lw::steps(kh, 4); } catch (const sim::Violation& v) { if (!known(v)) throw; sim::event("known-finding: " + v.cls); } Kokkos::fence(); }
#endif
static void layouts() { with([](lw::Backend& b) { lw::layouts(b); }); }
static void steps() { with([](lw::Backend& b) { lw::steps(b, 5); }); }
static void setups() { with([](lw::Backend& b) { lw::setups(b); }); }
#if KSIM_DEVICE
int main(int c, char** v) { return sim::harness_main(c, v, {{"kklmp_layouts_device", layouts}, {"kklmp_steps_device", steps}, {"kklmp_setups_device", setups}, {"kklmp_hoststyle_device", hoststyle}}); }
#else
int main(int c, char** v) { return sim::harness_main(c, v, {{"kklmp_layouts", layouts}, {"kklmp_steps", steps}, {"kklmp_setups", setups}}); }
#endif
