// Synthetic MACE model files and a naive reference of the model they define: a direct
// transcription of the network's formulas on a reverse-mode tape in long double, so the
// reference forces are the exact derivatives of the reference energy.
#pragma once
#include <array>
#include <cmath>
#include <cstdio>
#include <string>
#include <vector>
#include "../sim/core.hpp"
#include "../shims/sphericart/real_sph.hpp"

namespace mm {
typedef long double LD;
typedef std::vector<double> V;

struct Gen {   // bulk numbers from one drawn seed
    uint64_t s;
    double u() { return double(sim::Rng::splitmix(s) >> 11) / double(1ull << 53); }
    double sym(double a) { return a * (2 * u() - 1); }
    int below(int n) { return int(sim::Rng::splitmix(s) % uint64_t(n)); }
    V vec(int n, double a) { V v(n); for (auto& x : v) x = sym(a); return v; }
};

struct Spl { V val, der; };                       // one spline
struct Model {
    int nel, nch, l_max, L_max, nlm, nLM; double r_cut;
    std::vector<int> Z; V E0;
    bool zbl; double za_exp, za_pre; V zc, zrad; int zp;
    double h; std::vector<std::vector<Spl>> R0, R1;      // [pair][spline]
    V H0; std::vector<std::vector<V>> A0w;               // [type][l]
    bool A0s, A1s; double hs; std::vector<Spl> S0, S1;   // [pair]
    std::vector<std::vector<std::vector<int>>> mon0; std::vector<std::vector<int>> mon1;
    std::vector<std::vector<std::vector<V>>> M0w;        // [a][lm][k] -> coeffs
    std::vector<std::vector<V>> M1w;                     // [a][k]
    V H1w; std::vector<int> pl, pl1, pl2, lme, lelm; V cg; int nlme, nlelm;
    std::vector<V> A1w; std::vector<V> H2a; V H2b, ro1, ro2a, ro2b; double ro2s;
    int pair(int a, int b) const { if (a > b) std::swap(a, b); return a * (2 * nel - a - 1) / 2 + b; }
    int npairs() const { return nel * (nel + 1) / 2; }
    std::string json() const;
};

struct Limits { int nel = 3, nch = 4, l_max = 2, L_max = 1; bool allow_zbl = true; };

inline Spl tapered(Gen& g, int nodes, double h, double amp, double base) {   // falls to zero, with its slope, at the cutoff
    Spl s; s.val.resize(nodes); s.der.resize(nodes);
    for (int i = 0; i < nodes; ++i) {
        const double t = double(i) / (nodes - 1), w = (1 - t) * (1 - t) * (1 + 2 * t);
        s.val[i] = w * (base + g.sym(amp)); s.der[i] = w * g.sym(amp);
    }
    s.val[nodes - 1] = s.der[nodes - 1] = 0;
    return s;
}

inline Model draw_model(const Limits& lim = Limits()) {
    using namespace sim;
    Model m; 
    m.nel = range(1, lim.nel); m.nch = range(1, lim.nch); m.l_max = range(0, lim.l_max); m.L_max = std::min(range(0, lim.L_max), m.l_max);
    m.r_cut = 2.0 + 0.25 * choose(7);
    m.zbl = lim.allow_zbl && chance(1, 3); m.A0s = chance(1, 3); m.A1s = chance(1, 3);
    Gen g{uint64_t(choose(1u << 30)) * 2654435761u + 12345};
    m.nlm = (m.l_max + 1) * (m.l_max + 1); m.nLM = (m.L_max + 1) * (m.L_max + 1);
    int z = 0; for (int i = 0; i < m.nel; ++i) { z += 1 + g.below(6); m.Z.push_back(z); m.E0.push_back(1 + 7 * g.u()); }
    m.za_exp = 0.25 + 0.1 * g.u(); m.za_pre = 0.4 + 0.5 * g.u(); m.zc = {0.18, 0.5, 0.28, 0.03}; for (auto& x : m.zc) x *= 0.5 + g.u();
    m.zrad.assign(z + 3, 0.2); for (auto& x : m.zrad) x = 0.3 + 0.9 * g.u(); m.zp = 3 + g.below(4);
    const int nodes = 6 + g.below(14); m.h = m.r_cut / (nodes - 1) * 1.0000001; m.hs = m.h;
    const int np = m.npairs();
    m.R0.resize(np); for (auto& p : m.R0) for (int i = 0; i < (m.l_max + 1) * m.nch; ++i) p.push_back(tapered(g, nodes, m.h, 0.7, 0.2));
    // coupling paths, by output l ascending
    for (int l = 0; l <= m.l_max; ++l) {
        const int np_l = 1 + g.below(2);
        for (int e = 0; e < np_l; ++e) { m.pl.push_back(l); m.pl1.push_back(g.below(m.l_max + 1)); m.pl2.push_back(g.below(m.L_max + 1)); }
    }
    m.nlme = 0; m.nlelm = 0; for (size_t p = 0; p < m.pl.size(); ++p) { m.nlme += 2 * m.pl[p] + 1; m.nlelm += (2 * m.pl1[p] + 1) * (2 * m.pl2[p] + 1); }
    const int ncg = m.nlme + g.below(2 * m.nlelm + 1);
    for (int i = 0; i < ncg; ++i) { m.lme.push_back(i < m.nlme ? i : g.below(m.nlme)); m.lelm.push_back(g.below(m.nlelm)); m.cg.push_back(g.sym(1)); }
    m.R1.resize(np); for (auto& p : m.R1) for (size_t i = 0; i < m.pl.size() * m.nch; ++i) p.push_back(tapered(g, nodes, m.h, 0.6, 0.2));
    m.S0.resize(np); m.S1.resize(np);
    for (auto& s : m.S0) s = tapered(g, nodes, m.hs, 0.1, 0.3);
    for (auto& s : m.S1) s = tapered(g, nodes, m.hs, 0.1, 0.3);
    const double wc = 1.0 / std::sqrt((double)m.nch);
    m.H0 = g.vec(m.nel * m.nch, 1.2);
    m.A0w.resize(m.nel); for (auto& a : m.A0w) for (int l = 0; l <= m.l_max; ++l) a.push_back(g.vec(m.nch * m.nch, wc));
    auto monos = [&](int want) {
        std::vector<std::vector<int>> r; std::set<std::vector<int>> seen;
        for (int t = 0; t < want; ++t) { std::vector<int> x(1 + g.below(3)); for (auto& y : x) y = g.below(m.nlm); std::sort(x.begin(), x.end()); if (seen.insert(x).second) r.push_back(x); }
        std::sort(r.begin(), r.end(), [](auto& a, auto& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; });
        return r;
    };
    auto coeffs = [&](const std::vector<std::vector<int>>& mon) { V c; for (auto& x : mon) c.push_back(g.sym(x.size() == 1 ? 0.8 : x.size() == 2 ? 0.25 : 0.08)); return c; };
    for (int lm = 0; lm < m.nLM; ++lm) m.mon0.push_back(monos(2 + g.below(5)));
    m.mon1 = monos(2 + g.below(6));
    m.M0w.resize(m.nel); for (auto& a : m.M0w) { a.resize(m.nLM); for (int lm = 0; lm < m.nLM; ++lm) for (int k = 0; k < m.nch; ++k) a[lm].push_back(coeffs(m.mon0[lm])); }
    m.M1w.resize(m.nel); for (auto& a : m.M1w) for (int k = 0; k < m.nch; ++k) a.push_back(coeffs(m.mon1));
    m.H1w = g.vec((m.L_max + 1) * m.nch * m.nch, wc);
    for (int l = 0; l <= m.l_max; ++l) { int ne = 0; for (int x : m.pl) ne += x == l; m.A1w.push_back(g.vec(ne * m.nch * m.nch, wc * 0.7)); }
    for (int a = 0; a < m.nel; ++a) m.H2a.push_back(g.vec(m.nch * m.nch, wc));
    m.H2b = g.vec(m.nch * m.nch, wc); m.ro1 = g.vec(m.nch, 1); m.ro2a = g.vec(16 * m.nch, 1); m.ro2b = g.vec(16, 0.6); m.ro2s = 1.0 + g.u();
    return m;
}

// ------------------------------------------------------------------ model file
struct Js {
    std::string s; bool first = true; int indent = 0;
    void sep() { if (!first) s += ","; first = false; }
    void num(double d) { sep(); char b[40]; std::snprintf(b, 40, "%.17g", d); s += b; }
    void num(int d) { sep(); s += std::to_string(d); }
    void arr(const V& v) { open('['); for (double x : v) num(x); close(']'); }
    void arr(const std::vector<int>& v) { open('['); for (int x : v) num(x); close(']'); }
    template <class T> void arr(const std::vector<std::vector<T>>& v) { open('['); for (auto& x : v) arr(x); close(']'); }
    void open(char c) { sep(); s += c; first = true; }
    void close(char c) { s += c; first = false; }
    void key(const std::string& k) { sep(); s += "\"" + k + "\":"; first = true; }
    template <class T> void put(const char* k, const T& v) { key(k); if constexpr (std::is_same_v<T, double> || std::is_same_v<T, int>) num(v); else arr(v); first = false; }
    void flag(const char* k, bool b) { key(k); s += b ? "true" : "false"; first = false; }
};
inline std::string Model::json() const {
    Js j; j.open('{');
    j.put("num_elements", nel); j.put("num_channels", nch); j.put("r_cut", r_cut); j.put("l_max", l_max); j.put("L_max", L_max);
    j.put("atomic_numbers", Z);
    j.key("atomic_energies"); j.open('['); for (double e : E0) { j.sep(); char b[40]; std::snprintf(b, 40, "%.16e", e); j.s += b; } j.close(']');   // fixed width: files of equal size can differ
    j.flag("has_zbl", zbl);
    if (zbl) { j.put("zbl_a_exp", za_exp); j.put("zbl_a_prefactor", za_pre); j.put("zbl_c", zc); j.put("zbl_covalent_radii", zrad); j.put("zbl_p", zp); }
    auto splits = [&](const std::vector<std::vector<Spl>>& R, const char* a, const char* b) {
        std::vector<std::vector<V>> v, d; for (auto& p : R) { v.emplace_back(); d.emplace_back(); for (auto& s : p) { v.back().push_back(s.val); d.back().push_back(s.der); } }
        j.put(a, v); j.put(b, d);
    };
    j.put("radial_spline_h", h);
    splits(R0, "radial_spline_values_0", "radial_spline_derivs_0"); splits(R1, "radial_spline_values_1", "radial_spline_derivs_1");
    j.put("H0_weights", H0); j.put("A0_weights", A0w);
    auto scal = [&](const std::vector<Spl>& S, const std::string& n) {
        std::vector<V> v, d; for (auto& s : S) { v.push_back(s.val); d.push_back(s.der); }
        j.put((n + "_spline_h").c_str(), hs); j.put((n + "_spline_values").c_str(), v); j.put((n + "_spline_derivs").c_str(), d);
    };
    j.flag("A0_scaled", A0s); if (A0s) scal(S0, "A0");
    j.key("M0_weights"); j.open('{');
    for (int a = 0; a < nel; ++a) { j.key(std::to_string(a)); j.open('{'); for (int lm = 0; lm < nLM; ++lm) { j.key(std::to_string(lm)); j.open('{'); for (int k = 0; k < nch; ++k) j.put(std::to_string(k).c_str(), M0w[a][lm][k]); j.close('}'); } j.close('}'); }
    j.close('}');
    j.key("M0_monomials"); j.open('{'); for (int lm = 0; lm < nLM; ++lm) j.put(std::to_string(lm).c_str(), mon0[lm]); j.close('}');
    j.put("H1_weights", H1w);
    j.put("Phi1_l", pl); j.put("Phi1_l1", pl1); j.put("Phi1_l2", pl2); j.put("Phi1_lme", lme); j.put("Phi1_clebsch_gordan", cg); j.put("Phi1_lelm1lm2", lelm);
    j.put("A1_weights", A1w);
    j.flag("A1_scaled", A1s); if (A1s) scal(S1, "A1");
    j.key("M1_weights"); j.open('{'); for (int a = 0; a < nel; ++a) { j.key(std::to_string(a)); j.open('{'); for (int k = 0; k < nch; ++k) j.put(std::to_string(k).c_str(), M1w[a][k]); j.close('}'); } j.close('}');
    j.put("M1_monomials", mon1);
    j.put("H2_weights_for_H1", H2a); j.put("H2_weights_for_M1", H2b);
    j.put("readout_1_weights", ro1); j.put("readout_2_weights_1", ro2a); j.put("readout_2_weights_2", ro2b); j.put("readout_2_scale_factor", ro2s);
    j.close('}'); j.s += "\n";
    return j.s;
}

// ------------------------------------------------------------------ structures
struct Struct {                       // what an evaluation is given
    int n = 0; std::vector<int> type, nn, idx, ntype; V xyz, r;
};
struct Result { V E; std::vector<LD> Ei, F; double escale = 1, fscale = 1; };   // per-node energies, per-pair forces

// ------------------------------------------------------------------ reference
struct Var { LD v; int i; };
struct Tape {
    std::vector<uint32_t> start; std::vector<int> par; std::vector<LD> der;
    void clear() { start.clear(); par.clear(); der.clear(); }
    Var leaf(LD v) { start.push_back(par.size()); return {v, (int)start.size() - 1}; }
    void dep(const Var& p, LD d) { if (p.i >= 0) { par.push_back(p.i); der.push_back(d); } }
    Var done(uint32_t s, LD v) { start.push_back(s); return {v, (int)start.size() - 1}; }
    uint32_t mark() { return (uint32_t)par.size(); }
    std::vector<LD> adjoint(const std::vector<Var>& outs) {
        std::vector<LD> a(start.size(), 0); for (auto& o : outs) a[o.i] += 1;
        for (int n = (int)start.size() - 1; n >= 0; --n) if (a[n] != 0) {
            const uint32_t e = n + 1 < (int)start.size() ? start[n + 1] : (uint32_t)par.size();
            for (uint32_t k = start[n]; k < e; ++k) a[par[k]] += a[n] * der[k];
        }
        return a;
    }
};
struct Dual3 { LD v, d[3]; Dual3(double x = 0) : v(x), d{0, 0, 0} {} };
inline Dual3 operator+(const Dual3& a, const Dual3& b) { Dual3 r; r.v = a.v + b.v; for (int i = 0; i < 3; ++i) r.d[i] = a.d[i] + b.d[i]; return r; }
inline Dual3 operator-(const Dual3& a, const Dual3& b) { Dual3 r; r.v = a.v - b.v; for (int i = 0; i < 3; ++i) r.d[i] = a.d[i] - b.d[i]; return r; }
inline Dual3 operator*(const Dual3& a, const Dual3& b) { Dual3 r; r.v = a.v * b.v; for (int i = 0; i < 3; ++i) r.d[i] = a.d[i] * b.v + a.v * b.d[i]; return r; }

inline std::pair<LD, LD> hermite(double h, const Spl& s, LD r) {
    int i = (int)(r / h); if (i > (int)s.val.size() - 2) i = (int)s.val.size() - 2;
    const LD t = (r - (LD)h * i) / h;
    const LD f = (1 + 2 * t) * (1 - t) * (1 - t) * s.val[i] + t * (1 - t) * (1 - t) * h * s.der[i] + t * t * (3 - 2 * t) * s.val[i + 1] + t * t * (t - 1) * h * s.der[i + 1];
    const LD g = ((6 * t * t - 6 * t) * s.val[i] + (6 * t - 6 * t * t) * s.val[i + 1]) / h + (3 * t * t - 4 * t + 1) * s.der[i] + (3 * t * t - 2 * t) * s.der[i + 1];
    return {f, g};
}
inline std::pair<LD, LD> zbl_pair(const Model& s, int zu, int zv, LD r) {
    const LD rm = (LD)s.zrad[zu] + s.zrad[zv]; if (r >= rm) return {0, 0};
    const LD a = s.za_pre * 0.529L / (std::pow((LD)zu, (LD)s.za_exp) + std::pow((LD)zv, (LD)s.za_exp)); const LD e[4] = {-3.2L, -0.9423L, -0.4028L, -0.2016L};
    LD phi = 0, dphi = 0; for (int i = 0; i < 4; ++i) { LD t = s.zc[i] * std::exp(e[i] * r / a); phi += t; dphi += e[i] / a * t; }
    const LD k = 14.3996L * zu * zv, v = k * phi / r, dv = k * (dphi / r - phi / (r * r)), q = r / rm, p = s.zp;
    const LD env = 1 - (p + 1) * (p + 2) / 2 * std::pow(q, p) + p * (p + 2) * std::pow(q, p + 1) - p * (p + 1) / 2 * std::pow(q, p + 2);
    const LD denv = (-(p + 1) * (p + 2) / 2 * p * std::pow(q, p - 1) + p * (p + 2) * (p + 1) * std::pow(q, p) - p * (p + 1) / 2 * (p + 2) * std::pow(q, p + 1)) / rm;
    return {v * env / 2, (dv * env + v * denv) / 2};
}

inline Result reference(const Model& m, const Struct& s) {
    static Tape T; T.clear();
    const int np = (int)s.r.size(), K = m.nch;
    std::vector<Var> X(3 * np), Y(np * m.nlm), R0(np * (m.l_max + 1) * K), R1(np * m.pl.size() * K), S0(np), S1(np), EZ(np);
    for (int i = 0; i < 3 * np; ++i) X[i] = T.leaf(s.xyz[i]);
    std::vector<Dual3> o(m.nlm);
    std::vector<int> ti(np); { int ij = 0; for (int i = 0; i < s.n; ++i) for (int j = 0; j < s.nn[i]; ++j) ti[ij++] = s.type[i]; }
    for (int p = 0; p < np; ++p) {
        const LD x[3] = {s.xyz[3 * p], s.xyz[3 * p + 1], s.xyz[3 * p + 2]}; const LD r = std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]);
        uint32_t k = T.mark(); for (int a = 0; a < 3; ++a) T.dep(X[3 * p + a], x[a] / r); const Var vr = T.done(k, r);
        Dual3 u[3]; for (int a = 0; a < 3; ++a) { u[a].v = x[a] / r; for (int b = 0; b < 3; ++b) u[a].d[b] = ((a == b) - x[a] * x[b] / (r * r)) / r; }
        realsph::compute<Dual3>(m.l_max, u[2], u[0], u[1], o.data());
        const LD c = 2 * std::sqrt(3.14159265358979323846264338L);
        for (int q = 0; q < m.nlm; ++q) { k = T.mark(); for (int a = 0; a < 3; ++a) T.dep(X[3 * p + a], c * o[q].d[a]); Y[p * m.nlm + q] = T.done(k, c * o[q].v); }
        auto spl = [&](double h, const Spl& sp) { auto [f, g] = hermite(h, sp, r); uint32_t k2 = T.mark(); T.dep(vr, g); return T.done(k2, f); };
        const int pr = m.pair(ti[p], s.ntype[p]);
        for (int q = 0; q < (m.l_max + 1) * K; ++q) R0[p * (m.l_max + 1) * K + q] = spl(m.h, m.R0[pr][q]);
        for (size_t q = 0; q < m.pl.size() * K; ++q) R1[p * m.pl.size() * K + q] = spl(m.h, m.R1[pr][q]);
        if (m.A0s) S0[p] = spl(m.hs, m.S0[pr]);
        if (m.A1s) S1[p] = spl(m.hs, m.S1[pr]);
        if (m.zbl) { auto [f, g] = zbl_pair(m, m.Z[ti[p]], m.Z[s.ntype[p]], r); k = T.mark(); T.dep(vr, g); EZ[p] = T.done(k, f); }
    }
    auto poly = [&](const std::vector<std::vector<int>>& mon, const V& c, const std::vector<Var>& x) {
        LD f = 0; std::vector<LD> g(x.size(), 0);
        for (size_t t = 0; t < mon.size(); ++t) { LD v = c[t]; for (int q : mon[t]) v *= x[q].v; f += v;
            for (size_t a = 0; a < mon[t].size(); ++a) { LD d = c[t]; for (size_t b = 0; b < mon[t].size(); ++b) if (b != a) d *= x[mon[t][b]].v; g[mon[t][a]] += d; } }
        uint32_t k = T.mark(); for (size_t a = 0; a < x.size(); ++a) T.dep(x[a], g[a]); return T.done(k, f);
    };
    auto lin = [&](const Var* x, int stride, const double* w, int ws, int n) { LD v = 0; uint32_t k = T.mark(); for (int a = 0; a < n; ++a) { v += x[a * stride].v * w[a * ws]; T.dep(x[a * stride], w[a * ws]); } return T.done(k, v); };
    std::vector<int> first(s.n + 1, 0); for (int i = 0; i < s.n; ++i) first[i + 1] = first[i] + s.nn[i];
    auto scale = [&](std::vector<Var>& A, const std::vector<Var>& S, int i) {
        LD f = 1; for (int p = first[i]; p < first[i + 1]; ++p) f += S[p].v;
        uint32_t k = T.mark(); for (int p = first[i]; p < first[i + 1]; ++p) T.dep(S[p], 1); Var F = T.done(k, f);
        for (auto& a : A) { k = T.mark(); T.dep(a, 1 / f); T.dep(F, -a.v / (f * f)); a = T.done(k, a.v / f); }
    };
    std::vector<Var> H1(s.n * m.nLM * K);
    for (int i = 0; i < s.n; ++i) {
        std::vector<Var> A(m.nlm * K), P(m.nlm * K);
        for (int l = 0; l <= m.l_max; ++l) for (int q = l * l; q < (l + 1) * (l + 1); ++q) for (int k = 0; k < K; ++k) {
            LD v = 0; uint32_t mk = T.mark();
            for (int p = first[i]; p < first[i + 1]; ++p) { const Var &R = R0[(p * (m.l_max + 1) + l) * K + k], &y = Y[p * m.nlm + q]; const LD h = m.H0[s.ntype[p] * K + k]; v += R.v * y.v * h; T.dep(R, y.v * h); T.dep(y, R.v * h); }
            P[q * K + k] = T.done(mk, v);
        }
        for (int l = 0; l <= m.l_max; ++l) for (int q = l * l; q < (l + 1) * (l + 1); ++q) for (int k = 0; k < K; ++k) A[q * K + k] = lin(&P[q * K], 1, &m.A0w[s.type[i]][l][k], K, K);
        if (m.A0s) scale(A, S0, i);
        std::vector<Var> M(m.nLM * K), x(m.nlm);
        for (int lm = 0; lm < m.nLM; ++lm) for (int k = 0; k < K; ++k) { for (int q = 0; q < m.nlm; ++q) x[q] = A[q * K + k]; M[lm * K + k] = poly(m.mon0[lm], m.M0w[s.type[i]][lm][k], x); }
        for (int l = 0; l <= m.L_max; ++l) for (int q = l * l; q < (l + 1) * (l + 1); ++q) for (int k = 0; k < K; ++k) H1[(i * m.nLM + q) * K + k] = lin(&M[q * K], 1, &m.H1w[l * K * K + k], K, K);
    }
    Result res; std::vector<Var> E;
    for (int i = 0; i < s.n; ++i) {
        std::vector<Var> Pr(m.nlelm * K), P(m.nlme * K), A(m.nlm * K);
        int at = 0;
        for (size_t c = 0; c < m.pl.size(); ++c) for (int q1 = m.pl1[c] * m.pl1[c]; q1 < (m.pl1[c] + 1) * (m.pl1[c] + 1); ++q1) for (int q2 = m.pl2[c] * m.pl2[c]; q2 < (m.pl2[c] + 1) * (m.pl2[c] + 1); ++q2, ++at)
            for (int k = 0; k < K; ++k) {
                LD v = 0; uint32_t mk = T.mark();
                for (int p = first[i]; p < first[i + 1]; ++p) {
                    const Var &R = R1[(p * m.pl.size() + c) * K + k], &y = Y[p * m.nlm + q1], &h = H1[(s.idx[p] * m.nLM + q2) * K + k];
                    v += R.v * y.v * h.v; T.dep(R, y.v * h.v); T.dep(y, R.v * h.v); T.dep(h, R.v * y.v);
                }
                Pr[at * K + k] = T.done(mk, v);
            }
        for (int e = 0; e < m.nlme; ++e) for (int k = 0; k < K; ++k) {
            LD v = 0; uint32_t mk = T.mark();
            for (size_t c = 0; c < m.cg.size(); ++c) if (m.lme[c] == e) { v += m.cg[c] * Pr[m.lelm[c] * K + k].v; T.dep(Pr[m.lelm[c] * K + k], m.cg[c]); }
            P[e * K + k] = T.done(mk, v);
        }
        int off = 0;
        for (int l = 0; l <= m.l_max; ++l) {
            int ne = 0; for (int x : m.pl) ne += x == l;
            for (int q = 0; q < 2 * l + 1; ++q) for (int k = 0; k < K; ++k) A[(l * l + q) * K + k] = lin(&P[(off + q * ne) * K], 1, &m.A1w[l][k], K, ne * K);
            off += (2 * l + 1) * ne;
        }
        if (m.A1s) scale(A, S1, i);
        std::vector<Var> M(K), x(m.nlm), H2(K);
        for (int k = 0; k < K; ++k) { for (int q = 0; q < m.nlm; ++q) x[q] = A[q * K + k]; M[k] = poly(m.mon1, m.M1w[s.type[i]][k], x); }
        for (int k = 0; k < K; ++k) {
            LD v = 0; uint32_t mk = T.mark();
            for (int a = 0; a < K; ++a) { const Var& h = H1[i * m.nLM * K + a]; v += h.v * m.H2a[s.type[i]][a * K + k] + M[a].v * m.H2b[a * K + k]; T.dep(h, m.H2a[s.type[i]][a * K + k]); T.dep(M[a], m.H2b[a * K + k]); }
            H2[k] = T.done(mk, v);
        }
        LD e = m.E0[s.type[i]]; std::vector<LD> g(K, 0);
        for (int n = 0; n < 16; ++n) { LD z = 0; for (int k = 0; k < K; ++k) z += m.ro2a[n * K + k] * H2[k].v; const LD sg = 1 / (1 + std::exp(-z)); e += m.ro2b[n] * m.ro2s * z * sg; const LD d = m.ro2b[n] * m.ro2s * (sg + z * sg * (1 - sg)); for (int k = 0; k < K; ++k) g[k] += d * m.ro2a[n * K + k]; }
        uint32_t mk = T.mark();
        for (int k = 0; k < K; ++k) { T.dep(H2[k], g[k]); e += m.ro1[k] * H1[i * m.nLM * K + k].v; T.dep(H1[i * m.nLM * K + k], m.ro1[k]); }
        if (m.zbl) for (int p = first[i]; p < first[i + 1]; ++p) { e += EZ[p].v; T.dep(EZ[p], 1); }
        E.push_back(T.done(mk, e)); res.Ei.push_back(e); res.E.push_back((double)e);
    }
    auto adj = T.adjoint(E);
    res.F.resize(3 * np); for (int i = 0; i < 3 * np; ++i) { res.F[i] = -adj[X[i].i]; res.fscale = std::max(res.fscale, (double)std::fabs(res.F[i])); }
    for (auto& e : res.Ei) res.escale = std::max(res.escale, (double)std::fabs(e));
    return res;
}
}
