// The free functions of libsymmetrix (tools.hpp, spherical_harmonic.hpp) against their definitions.
#pragma once
#include <algorithm>
#include <complex>
#include "../sim/core.hpp"
#include "../sim/heap.hpp"
#include "tools.hpp"
#include "spherical_harmonic.hpp"
namespace hp {
using sim::choose; using sim::range; using sim::chance;
typedef std::vector<int> I; typedef std::vector<I> II; typedef std::vector<II> III;

inline std::string str(const I& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
inline std::string str(const II& v) { std::string s = "["; for (auto& x : v) s += str(x); return s + "]"; }
inline void see(const II& v) { for (auto& x : v) { for (int i : x) sim::observe((uint64_t)(uint32_t)i); sim::observe((uint64_t)0x5eed); } }
inline void same(const char* what, II got, II want, const std::string& arg) {
    ++sim::ctx->stats->evaluations; see(got);
    if (got.size() != want.size()) sim::fail(std::string("helpers:") + what, std::string(what) + "(" + arg + "): " + std::to_string(got.size()) + " entries, expected " + std::to_string(want.size()));
    for (size_t i = 0; i < got.size(); ++i) if (got[i] != want[i]) sim::fail(std::string("helpers:") + what, std::string(what) + "(" + arg + ") entry " + std::to_string(i) + ": got " + str(got[i]) + " expected " + str(want[i]));
}
inline III canon(III v) { for (auto& p : v) { for (auto& b : p) std::sort(b.begin(), b.end()); std::sort(p.begin(), p.end()); } std::sort(v.begin(), v.end()); return v; }
inline void same_sets(const char* what, const III& got, III want, const I& arg) {
    ++sim::ctx->stats->evaluations;
    III g = canon(got); want = canon(want);
    for (auto& p : g) see(p);
    if (g.size() != want.size()) sim::fail(std::string("helpers:") + what, std::string(what) + "(" + str(arg) + "): " + std::to_string(g.size()) + " partitions, expected " + std::to_string(want.size()));
    for (size_t i = 0; i < g.size(); ++i) if (g[i] != want[i]) sim::fail(std::string("helpers:") + what, std::string(what) + "(" + str(arg) + "): got " + str(g[i]) + " expected " + str(want[i]));
}
// partitions of the positions 0..n-1 by restricted growth strings
inline III set_partitions(const I& v, int parts) {
    III out; const int n = (int)v.size(); I a(n, 0);
    for (;;) {
        int k = 0; bool ok = true;
        for (int i = 0; i < n; ++i) { if (a[i] > k) { ok = false; break; } k = std::max(k, a[i] + 1); }
        if (ok && (parts == 0 || k == parts)) { II p(k); for (int i = 0; i < n; ++i) p[a[i]].push_back(v[i]); out.push_back(p); }
        int i = n - 1; while (i >= 0 && a[i] == i) a[i--] = 0;
        if (i < 0) break;
        ++a[i];
    }
    return out;
}
inline II odometer(const II& in) {    // last index fastest
    II out; size_t total = 1; for (auto& x : in) total *= x.size();
    for (size_t t = 0; t < total; ++t) { I o(in.size()); size_t q = t; for (int d = (int)in.size() - 1; d >= 0; --d) { o[d] = in[d][q % in[d].size()]; q /= in[d].size(); } out.push_back(o); }
    return out;
}
// normalised real harmonics of a direction, indexed l*(l+1)+m, from the textbook recursion of the associated Legendre functions
inline long double legendre(int l, int m, long double x) {     // without Condon-Shortley phase
    long double s = std::sqrt((1 - x) * (1 + x)), p = 1;
    for (int k = 1; k <= m; ++k) p *= (2 * k - 1) * s;
    if (l == m) return p;
    long double q = x * (2 * m + 1) * p;
    for (int k = m + 2; k <= l; ++k) { long double r = ((2 * k - 1) * x * q - (k + m - 1) * p) / (k - m); p = q; q = r; }
    return q;
}
inline std::complex<long double> ylm(int l, int m, long double ct, long double phi) {
    const int a = m < 0 ? -m : m; long double f = 1; for (int k = l - a + 1; k <= l + a; ++k) f *= k;
    const long double N = std::sqrt((2 * l + 1) / (4 * M_PIl) / f) * legendre(l, a, ct);
    std::complex<long double> y(N * std::cos(a * phi), N * std::sin(a * phi));
    if (a & 1) y = -y;                                            // Condon-Shortley
    if (m < 0) { y = std::conj(y); if (a & 1) y = -y; }
    return y;
}
inline long double real_ylm(int l, int m, long double ct, long double phi) {
    if (m == 0) return ylm(l, 0, ct, phi).real();
    auto y = ylm(l, m < 0 ? -m : m, ct, phi);
    return std::sqrt(2.0L) * ((m & 1) ? -1 : 1) * (m < 0 ? y.imag() : y.real());
}
inline void close(const char* what, double got, long double want, const std::string& arg) { sim::expect_close(std::string("helpers:") + what, std::string(what) + "(" + arg + ")", got, want, 1, 1e-7); }

struct Client {     // one caller; remembers its arguments so that calls are repeated and varied
    std::vector<I> past; bool big = true; int focus = -1;      // big: rare larger arguments
    int upto(int n, int more) { return big && chance(1, 30) ? more : n; }
    I list(int lo, int hi) {
        I v;
        if (!past.empty() && chance(1, 3)) { v = past[choose(past.size())]; if ((int)v.size() > hi) v.resize(hi); if (!v.empty() && chance(1, 2)) v[choose(v.size())] = range(0, 9); }
        if ((int)v.size() < lo) { const int n = range(lo, hi); v.clear(); const bool distinct = chance(2, 3); const int base = range(-3, 6); for (int i = 0; i < n; ++i) v.push_back(distinct ? base + i : range(-2, 4)); if (distinct && chance(1, 2)) for (int i = n - 1; i > 0; --i) std::swap(v[i], v[choose(i + 1)]); }
        past.push_back(v); if (past.size() > 5) past.erase(past.begin());
        return v;
    }
    double xyz[3] = {0, 0, 1};
    void point(bool on_axis) {
        if (chance(1, 4)) return;                                  // the previous point again
        for (;;) {
            for (double& c : xyz) c = sim::sreal(3);
            if (on_axis && chance(1, 3)) { const int k = (int)choose(3); xyz[k] = 0; if (chance(1, 2)) xyz[(k + 1 + choose(2)) % 3] = 0; }
            else { const double p = xyz[0] * xyz[0] + xyz[1] * xyz[1]; if (p < 1e-4 * xyz[2] * xyz[2]) continue; }
            if (xyz[0] || xyz[1] || xyz[2]) return;
        }
    }
    void step() {
        using sim::Scope; using sim::event; using sim::note;
        int op = (int)choose(17); if (focus >= 0 && chance(2, 3)) op = focus; ++sim::ctx->stats->steps;
        if (op == 0) { int n = range(0, 16), k = range(-1, n + 1); if (big && chance(1, 2)) { n = range(17, 34); k = chance(1, 2) ? range(-2, 4) : n - range(-2, 4); if (choose(2000) == 1999) { n = 30; k = range(14, 16); } } event("binomial"); note("binomial " + std::to_string(n) + " " + std::to_string(k)); int r; { Scope s; r = _binomial_coefficient(n, k); }
            long long w = k < 0 || k > n ? 0 : 1; for (int i = 1; i <= k && w; ++i) w = w * (n - k + i) / i;
            ++sim::ctx->stats->evaluations; sim::observe((uint64_t)(uint32_t)r); if (r != w) sim::fail("helpers:binomial", "binomial(" + std::to_string(n) + "," + std::to_string(k) + "): got " + std::to_string(r) + " expected " + std::to_string(w)); }
        else if (op == 1) { I v = list(0, upto(12, 300)); if (!v.empty() && v.size() < 9 && chance(1, 6)) v[choose(v.size())] = range(-200000000, 200000000); event("sum"); int r; { Scope s; r = _sum(v); } long long w = 0; for (int i : v) w += i;
            ++sim::ctx->stats->evaluations; sim::observe((uint64_t)(uint32_t)r); if (r != w) sim::fail("helpers:sum", "sum" + str(v) + ": got " + std::to_string(r) + " expected " + std::to_string(w)); }
        else if (op <= 3) { I v = list(1, upto(6, 8)); event("partitions"); note("partitions " + str(v)); III r; { Scope s; r = _partitions(v); } same_sets("partitions", r, set_partitions(v, 0), v); for (size_t i = 1; i < r.size(); ++i) if (r[i].size() < r[i - 1].size()) sim::fail("helpers:partitions-order", "partitions" + str(v) + " are not in order of the number of parts"); drop(r); }
        else if (op <= 6) { I v = list(1, upto(6, 9)); event("two-part partitions"); note("two_part_partitions " + str(v)); III r; { Scope s; r = _two_part_partitions(v); } same_sets("two_part_partitions", r, set_partitions(v, 2), v); drop(r); }
        else if (op == 7) { int n = range(0, upto(5, 8)); event("permutations"); note("permutations " + std::to_string(n)); II r; { Scope s; r = _permutations(n); }
            I v(n); for (int i = 0; i < n; ++i) v[i] = i; II w; do w.push_back(v); while (std::next_permutation(v.begin(), v.end())); same("permutations", r, w, std::to_string(n)); drop(r); }
        else if (op == 8) { I v = list(0, upto(8, 40)); int k = chance(1, 6) ? range(0, 3) : 2; event("combinations"); note("combinations " + str(v) + " " + std::to_string(k)); II r; bool refused = false;
            try { Scope s; r = _combinations(v, k); } catch (const std::invalid_argument&) { sim::heap_scope = 0; refused = true; }
            if (refused) { if (k == 2) sim::fail("helpers:combinations", "combinations of two refused"); return; }
            II w; I pickv; std::function<void(size_t)> rec = [&](size_t from) { if ((int)pickv.size() == k) { w.push_back(pickv); return; } for (size_t i = from; i < v.size(); ++i) { pickv.push_back(v[i]); rec(i + 1); pickv.pop_back(); } }; rec(0);
            same("combinations", r, w, str(v)); drop(r); }
        else if (op == 9) { II in; const int d = range(0, 4); for (int i = 0; i < d; ++i) in.push_back(list(chance(1, 8) ? 0 : 1, 4)); event("product"); note("product " + str(in)); II r; { Scope s; r = _product(in); } same("product", r, odometer(in), str(in)); drop(r); }
        else if (op == 10) { I v = list(1, 4); int k = range(0, upto(4, 6)); event("product_repeat"); note("product_repeat " + str(v) + " " + std::to_string(k)); II r; { Scope s; r = _product_repeat(v, k); } same("product_repeat", r, odometer(II(k, v)), str(v) + "," + std::to_string(k)); drop(r); }
        else if (op == 11) { int d = range(0, upto(4, 6)), m = range(1, upto(5, 6)); event("generate_indices"); note("generate_indices " + std::to_string(d) + " " + std::to_string(m)); II r; { Scope s; r = _generate_indices(d, m); } I v(m); for (int i = 0; i < m; ++i) v[i] = i; same("generate_indices", r, odometer(II(d, v)), std::to_string(d) + "," + std::to_string(m)); drop(r); }
        else harmonics(op);
    }
    void harmonics(int op) {
        using sim::Scope; using sim::event; using sim::note;
        const int l = range(0, 6), m = l ? range(0, 2 * l) - l : 0;
        std::string arg = std::to_string(l) + "," + std::to_string(m);
        if (op == 12) { double th = sim::real(0.01, 3.13), ph = sim::sreal(3.1); event("sph_harm(angles)"); auto w = ylm(l, m, std::cos((long double)th), ph); std::complex<double> y; double r; { Scope s; y = sph_harm(l, m, th, ph); r = real_sph_harm(l, m, th, ph); }
            arg += "," + sim::num(th) + "," + sim::num(ph); close("sph_harm.real", y.real(), w.real(), arg); close("sph_harm.imag", y.imag(), w.imag(), arg); close("real_sph_harm", r, real_ylm(l, m, std::cos((long double)th), ph), arg); return; }
        point(true);
        const double x = xyz[0], y = xyz[1], z = xyz[2]; const long double n = std::sqrt((long double)x * x + (long double)y * y + (long double)z * z), ct = z / n, ph = std::atan2((long double)y, (long double)x);
        arg += "," + sim::num(x) + "," + sim::num(y) + "," + sim::num(z); note("harmonics " + arg);
        const auto w = ylm(l, m, ct, ph); const long double wr = real_ylm(l, m, ct, ph);
        if (op == 13) { event("sph_harm_xyz"); std::complex<double> c; double r; { Scope s; c = sph_harm_xyz(l, m, x, y, z); r = real_sph_harm_xyz(l, m, x, y, z); } close("sph_harm_xyz.real", c.real(), w.real(), arg); close("sph_harm_xyz.imag", c.imag(), w.imag(), arg); close("real_sph_harm_xyz", r, wr, arg); }
        else if (op == 14) { event("sphericart_sph_harm"); std::complex<double> c; double r; { Scope s; r = sphericart_real_sph_harm(l, m, x, y, z); c = sphericart_sph_harm(l, m, x, y, z); } close("sphericart_sph_harm.real", c.real(), w.real(), arg); close("sphericart_sph_harm.imag", c.imag(), w.imag(), arg); close("sphericart_real_sph_harm", r, wr, arg); }
        else if (op == 15) { event("sphericart_real"); std::vector<double> r; { Scope s; r = sphericart_real(l, {x, y, z}); } if ((int)r.size() != (l + 1) * (l + 1)) sim::fail("helpers:sphericart_real", "wrong size"); for (int a = 0; a <= l; ++a) for (int b = -a; b <= a; ++b) close("sphericart_real", r[a * (a + 1) + b], real_ylm(a, b, ct, ph), arg); { Scope s; std::vector<double>().swap(r); } }
        else { event("sphericart_complex"); std::vector<double> in; const int ns = range(0, 4); std::vector<std::pair<long double, long double>> dir;
            for (int i = 0; i < ns; ++i) { point(true); in.insert(in.end(), xyz, xyz + 3); const long double q = std::sqrt((long double)xyz[0] * xyz[0] + (long double)xyz[1] * xyz[1] + (long double)xyz[2] * xyz[2]); dir.push_back({xyz[2] / q, std::atan2((long double)xyz[1], (long double)xyz[0])}); }
            std::vector<std::complex<double>> r; { Scope s; r = sphericart_complex(l, in); }
            if ((int)r.size() != ns * (l + 1) * (l + 1)) sim::fail("helpers:sphericart_complex", "got " + std::to_string(r.size()) + " values for " + std::to_string(ns) + " vectors");
            for (int i = 0; i < ns; ++i) for (int a = 0; a <= l; ++a) for (int b = -a; b <= a; ++b) { auto e = ylm(a, b, dir[i].first, dir[i].second); auto g = r[(i * (l + 1) + 0) * (l + 1) + a * (a + 1) + b]; close("sphericart_complex.real", g.real(), e.real(), arg); close("sphericart_complex.imag", g.imag(), e.imag(), arg); }
            { Scope s; std::vector<std::complex<double>>().swap(r); } }
    }
    template <class T> static void drop(T& r) { sim::Scope s; T().swap(r); }
};
}
