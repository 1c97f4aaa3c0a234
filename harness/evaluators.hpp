// The small evaluators of libsymmetrix (real code) next to naive long-double
// reference models of them, and random operations on them.
#pragma once
#include <array>
#include <cmath>
#include <memory>
#include <stdexcept>
#include <tuple>
#include "../sim/core.hpp"
#include "../sim/heap.hpp"
#include "multilayer_perceptron.hpp"
#include "multivariate_polynomial.hpp"
#include "cubic_spline.hpp"
#include "cubic_spline_set.hpp"
#include "zbl.hpp"

namespace ev {
using sim::range; using sim::sreal; using sim::real; using sim::choose; using sim::chance;
typedef long double LD;
typedef std::vector<double> V;

// long vectors come from one choice, short ones from one choice per entry
inline V rvec(int n, double a) {
    V v(n);
    if (n <= 48) { for (auto& x : v) x = sreal(a); return v; }
    uint64_t s = choose(1u << 30) * 0x9e3779b97f4a7c15ull + n;
    for (auto& x : v) x = a * (2 * double(sim::Rng::splitmix(s) >> 11) / double(1ull << 53) - 1);
    return v;
}
// inputs: fresh, or equal to an input used earlier in this run (by any object), or that with one entry changed
struct Pool { uint64_t run = 0; std::vector<V> v; std::vector<double> r; void sync() { if (run != sim::run_id) { run = sim::run_id; v.clear(); r.clear(); } } };
inline Pool pool;
inline V input(int n, double a) {
    pool.sync();
    const int how = (int)choose(4);
    if (how >= 2) for (size_t k = pool.v.size(); k-- > 0;) if ((int)pool.v[k].size() >= n && n > 0) {
        V x(pool.v[k].begin(), pool.v[k].begin() + n);
        if (how == 3) { const int k = (int)choose(n); if (chance(1, 3)) x[k] += 1e-5 * sreal(a); else x[k] = sreal(a); }
        sim::event("input-reused");
        return x;
    }
    V x = rvec(n, a);
    if (n > 0 && chance(1, 6)) switch (choose(5)) {   // special values: exact zeros, whole numbers, equal entries, one large or tiny entry
        case 0: x[choose(n)] = 0.0; if (n > 1) x[choose(n)] = 0.0; break;
        case 1: for (auto& v : x) v = std::round(v); break;
        case 2: for (auto& v : x) v = x[0]; break;
        case 3: x[choose(n)] *= 8; break;
        default: x[choose(n)] *= 1e-9; break;
    }
    pool.v.push_back(x); if (pool.v.size() > 12) pool.v.erase(pool.v.begin()); return x;
}
inline int batch_size() {
    const int k = (int)choose(24);
    if (k < 3) return 0;
    if (k < 19) return range(1, 9);
    if (k < 23) return range(10, 70);
    return range(71, 300);
}
inline int size_or_big(int lo, int hi, int big) { return chance(1, 12) ? range(hi, big) : range(lo, hi); }
// buffer between guard cells, prefilled with garbage
struct OutBuf {
    V b; size_t n;
    explicit OutBuf(size_t n, double fillv) : b(n + 8, fillv), n(n) { for (int i = 0; i < 4; ++i) b[i] = b[n + 4 + i] = 12345.5; }
    std::span<double> span() { return std::span<double>(b.data() + 4, n); }
    V values() const { return V(b.begin() + 4, b.begin() + 4 + n); }
    void check(const char* what) const {
        for (int i = 0; i < 4; ++i) if (b[i] != 12345.5 || b[n + 4 + i] != 12345.5) sim::fail("out-of-range-write", std::string(what) + " wrote outside the caller's buffer");
    }
};

// An evaluator under test plus its model.  step() performs one random operation; it
// reads all inputs first (choices), then calls the code under test, then compares.
// Under allocation failure the call may throw std::bad_alloc; it is then simply over.
struct Subject {
    virtual ~Subject() {}
    virtual void step() = 0;
    virtual const char* kind() const = 0;
    virtual std::unique_ptr<Subject> clone() { return nullptr; }   // a copy of the object, made by the code under test
    virtual void take(Subject&) {}               // copy assignment from another object of the same kind
};
// a class without copies or assignment is simply made anew
template <class C> std::unique_ptr<C> copy_of(const C& c) { if constexpr (std::is_copy_constructible_v<C>) return std::make_unique<C>(c); else return nullptr; }
template <class C> bool copy_over(C& to, const C& from) { if constexpr (std::is_copy_assignable_v<C>) { to = from; return true; } else return false; }
template <class C, class... A> void renew(std::unique_ptr<C>& p, const A&... a) { if constexpr (std::is_move_assignable_v<C>) *p = C(a...); else p = std::make_unique<C>(a...); }
#define CLONES(T, C, ...) \
    std::unique_ptr<Subject> clone() override { auto q = std::make_unique<T>(*this, 0); if (p) { sim::Scope sc; q->p = copy_of(*p); } return q; } \
    T(const T& o, int) { copy(o); } \
    void copy(const T& o) { __VA_ARGS__; } \
    void take(Subject& b) override { T& o = static_cast<T&>(b); if (!o.p || !p) return; { sim::Scope sc; if (!copy_over(*p, *o.p)) return; } if (&o != this) copy(o); }
constexpr double RTOL = 1e-9;

// ------------------------------------------------------------------ MLP
struct MlpSpec { std::vector<int> shape; std::vector<V> w; double a; };
inline std::pair<std::vector<LD>, std::vector<LD>> mlp_ref(const MlpSpec& s, const double* x) {
    std::vector<LD> v(x, x + s.shape[0]);
    // J: d v / d x
    const int n0 = s.shape[0];
    std::vector<LD> J(n0 * n0, 0); for (int i = 0; i < n0; ++i) J[i * n0 + i] = 1;
    const int L = (int)s.shape.size() - 1;
    for (int l = 0; l < L; ++l) {
        const int m = s.shape[l + 1], n = s.shape[l];
        std::vector<LD> y(m, 0), K(m * n0, 0);
        for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
            y[i] += (LD)s.w[l][i * n + j] * v[j];
            for (int k = 0; k < n0; ++k) K[i * n0 + k] += (LD)s.w[l][i * n + j] * J[j * n0 + k];
        }
        if (l < L - 1) for (int i = 0; i < m; ++i) {
            const LD sg = 1 / (1 + std::exp(-y[i])), d = s.a * (sg + y[i] * sg * (1 - sg));
            for (int k = 0; k < n0; ++k) K[i * n0 + k] *= d;
            y[i] = s.a * y[i] * sg;
        }
        v = y; J = K;
    }
    return {v, J};
}
inline MlpSpec mlp_spec() {
    MlpSpec s; int L = range(1, 4);
    s.shape.push_back(size_or_big(1, 9, 40)); for (int i = 0; i < L; ++i) s.shape.push_back(i == L - 1 ? range(1, 5) : size_or_big(1, 18, 70));
    for (int i = 0; i < L; ++i) s.w.push_back(rvec(s.shape[i] * s.shape[i + 1], 1.5));
    s.a = chance(1, 4) ? 1.0 : real(0.5, 2.0);
    return s;
}
struct Mlp : Subject {
    MlpSpec s; std::unique_ptr<MultilayerPerceptron> p;
    const char* kind() const override { return "mlp"; }
    void make() { sim::Scope sc; p = std::make_unique<MultilayerPerceptron>(s.shape, s.w, s.a); }
    Mlp() : s(mlp_spec()) {}
    CLONES(Mlp, MultilayerPerceptron, s = o.s)
    void cmp(const char* what, int b, const V& in, const V& f, const V* g) {
        const int n0 = s.shape[0], no = s.shape.back();
        std::vector<LD> wf, wg;
        for (int i = 0; i < b; ++i) { auto [y, J] = mlp_ref(s, in.data() + i * n0); wf.insert(wf.end(), y.begin(), y.end()); wg.insert(wg.end(), J.begin(), J.end()); }
        (void)no;
        sim::expect_all_close("mlp:value", std::string("MLP ") + what, f, wf, RTOL);
        if (g) sim::expect_all_close("mlp:gradient", std::string("MLP ") + what + " gradient", *g, wg, RTOL);
    }
    void step() override {
        if (!p) { make(); return; }
        const int op = (int)choose(10); const int n0 = s.shape[0];
        if (op == 0) { sim::event("mlp.evaluate"); V in = input(n0, 2); V f; { sim::Scope sc; f = p->evaluate(in); } cmp("evaluate", 1, in, f, nullptr); }
        else if (op <= 2) { sim::event("mlp.evaluate_gradient"); V in = input(n0, 2); std::tuple<V, V> r; { sim::Scope sc; r = p->evaluate_gradient(in); } cmp("evaluate_gradient", 1, in, std::get<0>(r), &std::get<1>(r)); }
        else if (op <= 4) { sim::event("mlp.evaluate_batch"); int b = batch_size(); V in = input(n0 * b, 2); V f; { sim::Scope sc; f = p->evaluate_batch(in, b); } cmp("evaluate_batch", b, in, f, nullptr); }
        else if (op <= 7) { sim::event("mlp.evaluate_gradient_batch"); int b = batch_size(); V in = input(n0 * b, 2); std::tuple<V, V> r; { sim::Scope sc; r = p->evaluate_gradient_batch(in, b); } cmp("evaluate_gradient_batch", b, in, std::get<0>(r), &std::get<1>(r)); }
        else if (op == 8) { sim::event("mlp.copy"); std::unique_ptr<MultilayerPerceptron> q; { sim::Scope sc; q = copy_of(*p); } if (q) p = std::move(q); }
        else { sim::event("mlp.assign"); MlpSpec s2 = mlp_spec(); { sim::Scope sc; renew(p, s2.shape, s2.w, s2.a); } s = s2; }
    }
};

// ------------------------------------------------------------------ polynomial
struct PolySpec { int n; V c; std::vector<std::vector<int>> m; };
inline PolySpec poly_spec() {
    PolySpec s; s.n = size_or_big(1, 6, 16); const int want = size_or_big(1, 12, 60);
    std::set<std::vector<int>> seen;
    for (int t = 0; t < want; ++t) {
        std::vector<int> m(chance(1, 10) ? range(5, 6) : range(1, 4)); for (auto& x : m) x = range(0, s.n - 1);
        std::sort(m.begin(), m.end());
        if (seen.insert(m).second) { if (m.size() > 1 && chance(1, 8)) std::swap(m[choose(m.size())], m[choose(m.size())]); s.m.push_back(m); s.c.push_back(sreal(2)); }
    }
    return s;
}
inline std::pair<LD, std::vector<LD>> poly_ref(const PolySpec& s, const double* x) {
    LD f = 0; std::vector<LD> g(s.n, 0);
    for (size_t i = 0; i < s.m.size(); ++i) {
        LD t = s.c[i]; for (int k : s.m[i]) t *= x[k]; f += t;
        for (size_t j = 0; j < s.m[i].size(); ++j) { LD d = s.c[i]; for (size_t k = 0; k < s.m[i].size(); ++k) if (k != j) d *= x[s.m[i][k]]; g[s.m[i][j]] += d; }
    }
    return {f, g};
}
struct Poly : Subject {
    PolySpec s; std::unique_ptr<MultivariatePolynomial> p;
    const char* kind() const override { return "polynomial"; }
    Poly() : s(poly_spec()) {}
    CLONES(Poly, MultivariatePolynomial, s = o.s)
    void cmp(const char* what, int b, const V& in, const V& f, const V* g) {
        std::vector<LD> wf, wg;
        for (int i = 0; i < b; ++i) { auto [y, d] = poly_ref(s, in.data() + i * s.n); wf.push_back(y); wg.insert(wg.end(), d.begin(), d.end()); }
        sim::expect_all_close("polynomial:value", std::string("polynomial ") + what, f, wf, RTOL, 1.0);
        if (g) sim::expect_all_close("polynomial:gradient", std::string("polynomial ") + what + " gradient", *g, wg, RTOL, 1.0);
    }
    void step() override {
        if (!p) { sim::Scope sc; p = std::make_unique<MultivariatePolynomial>(s.n, s.c, s.m); return; }
        const int op = (int)choose(11);
        if (op <= 1) { sim::event("polynomial.evaluate"); V in = input(s.n, 1.5); double f; { sim::Scope sc; f = p->evaluate(in); } cmp("evaluate", 1, in, {f}, nullptr); }
        else if (op <= 3) { sim::event("polynomial.evaluate_gradient"); V in = input(s.n, 1.5); std::tuple<double, V> r; { sim::Scope sc; r = p->evaluate_gradient(in); } cmp("evaluate_gradient", 1, in, {std::get<0>(r)}, &std::get<1>(r)); }
        else if (op <= 6) { sim::event("polynomial.evaluate_batch"); int b = batch_size(); V in = input(s.n * b, 1.5); std::tuple<V, V> r; { sim::Scope sc; r = p->evaluate_batch(in, b); } cmp("evaluate_batch", b, in, std::get<0>(r), &std::get<1>(r)); }
        else if (op == 7) { sim::event("polynomial.evaluate_simple"); V in = input(s.n, 1.5); double f; { sim::Scope sc; f = p->evaluate_simple(in); } cmp("evaluate_simple", 1, in, {f}, nullptr); }
        else if (op == 8) { sim::event("polynomial.evaluate_gradient_simple"); V in = input(s.n, 1.5); std::tuple<double, V> r; { sim::Scope sc; r = p->evaluate_gradient_simple(in); } cmp("evaluate_gradient_simple", 1, in, {std::get<0>(r)}, &std::get<1>(r)); }
        else if (op == 9) { sim::event("polynomial.copy"); std::unique_ptr<MultivariatePolynomial> q; { sim::Scope sc; q = copy_of(*p); } if (q) p = std::move(q); }
        else { sim::event("polynomial.assign"); PolySpec s2 = poly_spec(); { sim::Scope sc; renew(p, s2.n, s2.c, s2.m); } s = s2; }
    }
};

// ------------------------------------------------------------------ splines
struct SplineRef { double h; std::vector<V> val, der; };   // [spline][node]
inline std::pair<LD, LD> spline_ref(double h, const V& v, const V& d, double r, int i) {
    const LD t = ((LD)r - (LD)h * i) / h;
    const LD h00 = (1 + 2 * t) * (1 - t) * (1 - t), h10 = t * (1 - t) * (1 - t), h01 = t * t * (3 - 2 * t), h11 = t * t * (t - 1);
    const LD f = h00 * v[i] + h10 * h * d[i] + h01 * v[i + 1] + h11 * h * d[i + 1];
    const LD g = ((6 * t * t - 6 * t) * v[i] + (6 * t - 6 * t * t) * v[i + 1]) / h + (3 * t * t - 4 * t + 1) * d[i] + (3 * t * t - 2 * t) * d[i + 1];
    return {f, g};
}
inline double spline_point_(double h, int nodes);
inline double spline_point(double h, int nodes) {
    pool.sync();
    if (chance(1, 3)) for (size_t k = pool.r.size(); k-- > 0;) {   // a distance used before
        const double q = pool.r[k] / h; const int i = (int)q;
        if (i <= nodes - 2 && q - i > 1e-3 && q - i < 1 - 1e-3) return chance(1, 4) ? pool.r[k] + 1e-5 * h : pool.r[k];
    }
    const double r = spline_point_(h, nodes); pool.r.push_back(r); if (pool.r.size() > 6) pool.r.erase(pool.r.begin()); return r;
}
inline double spline_point_(double h, int nodes) {   // inside a segment, or at a node (the spline and its derivative are continuous there)
    const int i = range(0, nodes - 2);
    if (chance(1, 8)) return h * i + (i && chance(1, 2) ? h * 1e-9 : 0.0);
    return h * (i + real(0.02, 0.98));
}
struct Spline : Subject {
    double h; V v, d; std::unique_ptr<CubicSpline> p;
    const char* kind() const override { return "spline"; }
    void spec() { h = real(0.05, 1.0); int n = size_or_big(2, 8, 200); v = rvec(n, 3); d = rvec(n, 3); }
    Spline() { spec(); }
    CLONES(Spline, CubicSpline, h = o.h; v = o.v; d = o.d)
    void step() override {
        if (!p) { sim::Scope sc; p = std::make_unique<CubicSpline>(h, v, d); return; }
        const int op = (int)choose(10); const int n = (int)v.size();
        if (op <= 5) {
            double r = spline_point(h, n); if (op >= 4 && r < 0.01 * h) r = 0.01 * h;
            const int i = std::min((int)(r / h), n - 2);
            auto [f, g] = spline_ref(h, v, d, r, i);
            const double sc0 = 30 * (1 + 1 / h), scg = sc0 * (op >= 4 ? 1 / r : 1);
            if (op <= 1) { sim::event("spline.evaluate"); double y; { sim::Scope sc; y = p->evaluate(r); } sim::expect_close("spline:value", "CubicSpline evaluate", y, f, sc0, RTOL); }
            else {
                std::tuple<double, double> y; const bool div = op >= 4; sim::event(div ? "spline.evaluate_deriv_divided" : "spline.evaluate_deriv");
                { sim::Scope sc; y = div ? p->evaluate_deriv_divided(r) : p->evaluate_deriv(r); }
                sim::expect_close("spline:value", "CubicSpline evaluate_deriv", std::get<0>(y), f, sc0, RTOL);
                sim::expect_close("spline:deriv", "CubicSpline derivative", std::get<1>(y), div ? g / r : g, scg, RTOL);
            }
        } else if (op <= 7) {   // outside the table: must be refused and leave the object usable
            sim::event("spline.out_of_range");
            const double r = chance(1, 5) ? -h * real(1.01, 4.0) : h * (n - 1) + h * real(0.01, 3.0); const int which = (int)choose(3); bool threw = false;
            try { sim::Scope sc; if (which == 0) p->evaluate(r); else if (which == 1) p->evaluate_deriv(r); else p->evaluate_deriv_divided(r); }
            catch (const std::invalid_argument&) { threw = true; }
            catch (const std::out_of_range&) { threw = true; }
            catch (const std::domain_error&) { threw = true; }
            if (!threw) sim::fail("spline:accepts-out-of-range", "CubicSpline returned a value beyond its table");
        } else if (op == 8) { sim::event("spline.copy"); std::unique_ptr<CubicSpline> q; { sim::Scope sc; q = copy_of(*p); } if (q) p = std::move(q); }
        else { sim::event("spline.assign"); Spline o; { sim::Scope sc; renew(p, o.h, o.v, o.d); } h = o.h; v = o.v; d = o.d; }
    }
};
struct SplineSet : Subject {
    double h; std::vector<V> v, d; std::unique_ptr<CubicSplineSet> p;
    const char* kind() const override { return "spline-set"; }
    void spec() { h = real(0.05, 1.0); int n = size_or_big(2, 8, 100), k = size_or_big(1, 9, 130); v.clear(); d.clear(); for (int i = 0; i < k; ++i) { v.push_back(rvec(n, 3)); d.push_back(rvec(n, 3)); } }
    SplineSet() { spec(); }
    CLONES(SplineSet, CubicSplineSet, h = o.h; v = o.v; d = o.d)
    void step() override {
        if (!p) { sim::Scope sc; p = std::make_unique<CubicSplineSet>(h, v, d); return; }
        const int op = (int)choose(8); const int n = (int)v[0].size(), k = (int)v.size();
        if (op <= 5) {
            const double r = spline_point(h, n), garbage = sreal(1e3);
            const int i = std::min((int)(r / h), n - 2); const double sc0 = 30 * (1 + 1 / h);
            OutBuf a(k, garbage), b(k, -garbage); const bool der = op >= 3;
            sim::event(der ? "spline_set.evaluate_derivs" : "spline_set.evaluate");
            { sim::Scope sc; if (der) p->evaluate_derivs(r, a.span(), b.span()); else p->evaluate(r, a.span()); }
            a.check("CubicSplineSet"); b.check("CubicSplineSet");
            if (p->num_splines != k) sim::fail("spline-set:size", "CubicSplineSet reports a wrong number of splines");
            for (int j = 0; j < k; ++j) {
                auto [f, g] = spline_ref(h, v[j], d[j], r, i);
                sim::expect_close("spline-set:value", "CubicSplineSet value", a.values()[j], f, sc0, RTOL);
                if (der) sim::expect_close("spline-set:deriv", "CubicSplineSet derivative", b.values()[j], g, sc0, RTOL);
            }
        } else if (op == 6) { sim::event("spline_set.copy"); std::unique_ptr<CubicSplineSet> q; { sim::Scope sc; q = copy_of(*p); } if (q) p = std::move(q); }
        else { sim::event("spline_set.assign"); SplineSet o; { sim::Scope sc; renew(p, o.h, o.v, o.d); } h = o.h; v = o.v; d = o.d; }
    }
};

// ------------------------------------------------------------------ ZBL
struct ZblSpec { double a_exp, a_pre; V c, radii; int p; };
inline ZblSpec zbl_spec() {
    ZblSpec s; s.a_exp = real(0.2, 0.4); s.a_pre = real(0.4, 1.0); s.c = {real(0.05, 0.3), real(0.1, 0.6), real(0.05, 0.4), real(0.01, 0.1)};
    s.radii = chance(1, 2) ? V(20, 0.2) : rvec(119, 0.7); if (s.radii.size() == 20) for (auto& x : s.radii) x = real(0.2, 1.6); else for (auto& x : s.radii) x += 0.9;
    s.p = range(2, 7); return s;
}
inline std::pair<LD, LD> zbl_ref(const ZblSpec& s, int zu, int zv, double r) {
    const LD rm = (LD)s.radii[zu] + s.radii[zv];
    if (r >= rm) return {0, 0};
    const LD a = s.a_pre * 0.529L / (std::pow((LD)zu, (LD)s.a_exp) + std::pow((LD)zv, (LD)s.a_exp));
    const LD e[4] = {-3.2L, -0.9423L, -0.4028L, -0.2016L};
    LD phi = 0, dphi = 0; for (int i = 0; i < 4; ++i) { LD t = s.c[i] * std::exp(e[i] * r / a); phi += t; dphi += e[i] / a * t; }
    const LD k = 14.3996L * zu * zv, v = k * phi / r, dv = k * (dphi / r - phi / ((LD)r * r));
    const LD q = r / rm, p = s.p;
    const LD env = 1 - (p + 1) * (p + 2) / 2 * std::pow(q, p) + p * (p + 2) * std::pow(q, p + 1) - p * (p + 1) / 2 * std::pow(q, p + 2);
    const LD denv = (-(p + 1) * (p + 2) / 2 * p * std::pow(q, p - 1) + p * (p + 2) * (p + 1) * std::pow(q, p) - p * (p + 1) / 2 * (p + 2) * std::pow(q, p + 1)) / rm;
    return {v * env / 2, (dv * env + v * denv) / 2};
}
struct Zbl : Subject {
    ZblSpec s; std::unique_ptr<ZBL> p;
    const char* kind() const override { return "zbl"; }
    Zbl() : s(zbl_spec()) {}
    CLONES(Zbl, ZBL, s = o.s)
    void step() override {
        if (!p) { sim::Scope sc; p = std::make_unique<ZBL>(s.a_exp, s.a_pre, s.c, s.radii, s.p); return; }
        const int op = (int)choose(8);
        if (op <= 2) {
            const int zm = (int)s.radii.size() - 1, zu = range(1, zm), zv = chance(1, 4) ? zu : range(1, zm); const double r = spline_point(0.3, 11) + 0.2; auto [f, g] = zbl_ref(s, zu, zv, r);
            sim::event("zbl.pair"); double a, b; { sim::Scope sc; a = p->compute(zu, zv, r); b = p->compute_gradient(zu, zv, r); }
            const double scale = 14.4 * zu * zv / r * (1 + 1 / r);
            sim::expect_close("zbl:value", "ZBL energy", a, f, scale, RTOL); sim::expect_close("zbl:gradient", "ZBL gradient", b, g, scale * 10, RTOL);
        } else if (op <= 5) {   // accumulate over a neighbour list into caller-owned arrays
            sim::event("zbl.list");
            const int n = range(0, 5), nt = range(1, 3); std::vector<int> Z(nt), nt_(n), nn(n), nty; for (auto& z : Z) z = range(1, (int)s.radii.size() - 1);
            V r, xyz; for (int i = 0; i < n; ++i) { nt_[i] = range(0, nt - 1); nn[i] = chance(1, 20) ? range(5, 30) : range(0, 4); for (int j = 0; j < nn[i]; ++j) { nty.push_back(range(0, nt - 1)); double x = sreal(1.5), y = sreal(1.5), z = sreal(1.5); xyz.insert(xyz.end(), {x, y, z}); r.push_back(std::sqrt(x * x + y * y + z * z)); } }
            const double e0 = sreal(5), f0 = sreal(5); OutBuf e(n, e0), f(xyz.size(), f0);
            { sim::Scope sc; p->compute_ZBL(n, nt_, nn, nty, Z, r, xyz, e.span(), f.span()); }
            e.check("ZBL"); f.check("ZBL");
            int ij = 0;
            for (int i = 0; i < n; ++i) { LD we = e0; double scl = 10;
                for (int j = 0; j < nn[i]; ++j, ++ij) { auto [u, g] = zbl_ref(s, Z[nt_[i]], Z[nty[ij]], r[ij]); we += u; const double sc1 = 14.4 * std::max(400, Z[nt_[i]] * Z[nty[ij]]) / r[ij] * (1 + 1 / r[ij]); scl += sc1;
                    for (int k = 0; k < 3; ++k) sim::expect_close("zbl:force", "ZBL pair force", f.values()[3 * ij + k], f0 - xyz[3 * ij + k] / r[ij] * g, sc1 * 10, RTOL); }
                sim::expect_close("zbl:node-energy", "ZBL node energy", e.values()[i], we, scl, RTOL); }
        } else if (op == 6) { sim::event("zbl.copy"); std::unique_ptr<ZBL> q; { sim::Scope sc; q = copy_of(*p); } if (q) p = std::move(q); }
        else { sim::event("zbl.assign"); ZblSpec o = zbl_spec(); { sim::Scope sc; renew(p, o.a_exp, o.a_pre, o.c, o.radii, o.p); } s = o; }
    }
};

// focus >= 0: that kind most of the time
inline std::unique_ptr<Subject> make_subject(int focus = -1) {
    const int k = (int)choose(focus >= 0 ? 25 : 5);
    switch (k >= 5 ? focus : k) {
    case 0: return std::make_unique<Mlp>();
    case 1: return std::make_unique<Poly>();
    case 2: return std::make_unique<Spline>();
    case 3: return std::make_unique<SplineSet>();
    default: return std::make_unique<Zbl>();
    }
}
}
