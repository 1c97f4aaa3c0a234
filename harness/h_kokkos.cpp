// Kokkos evaluators (real kernels) on the simulated Kokkos backend: every kernel launch,
// the deal of iterations to workers, team sizes and preemption points are drawn.
#include <algorithm>
#include "../sim/sched.hpp"
#include "evaluators.hpp"
#include <Kokkos_Core.hpp>
#include "cubic_spline_kokkos.hpp"
#include "cubic_spline_set_kokkos.hpp"
#include "multilayer_perceptron_kokkos.hpp"
#include "multivariate_polynomial_kokkos.hpp"
#include "radial_function_set_kokkos.hpp"
#include "tools_kokkos.hpp"
#include "zbl_kokkos.hpp"
using namespace sim;
using ev::V; using ev::LD; using ev::RTOL;
typedef Kokkos::LayoutRight LR;

template <class T, class U> static Kokkos::View<T*> dev(const std::vector<U>& v, const char* n = "in") {
    Kokkos::View<T*> d(n, v.size()); auto h = Kokkos::create_mirror_view(d);
    for (size_t i = 0; i < v.size(); ++i) h(i) = (T)v[i];
    Kokkos::deep_copy(d, h); return d;
}
template <class L, class T> static Kokkos::View<T**, L> dev2(const std::vector<T>& v, int a, int b, const char* n = "in2") {
    Kokkos::View<T**, L> d(n, a, b); auto h = Kokkos::create_mirror_view(d);
    for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) h(i, j) = v[(size_t)i * b + j];
    Kokkos::deep_copy(d, h); return d;
}
template <class VW> static V host(const VW& d) {
    auto h = Kokkos::create_mirror_view(d); Kokkos::deep_copy(h, d); V v;
    if constexpr (VW::rank == 1) for (size_t i = 0; i < d.extent(0); ++i) v.push_back(h(i));
    else for (size_t i = 0; i < d.extent(0); ++i) for (size_t j = 0; j < d.extent(1); ++j) v.push_back(h(i, j));
    return v;
}
// batches: mostly small (every instrumented access is a possible preemption)
static int kbatch() { const int k = (int)choose(12); return k == 0 ? 0 : k < 10 ? range(1, 6) : range(7, 24); }
static V garbage(size_t n) { return V(n, sreal(1e3)); }

struct KMlp : ev::Subject {
    ev::MlpSpec s; std::vector<std::unique_ptr<MultilayerPerceptronKokkos>> p;
    const char* kind() const override { return "kokkos-mlp"; }
    static ev::MlpSpec spec() {
        ev::MlpSpec s; const int L = range(1, 4); s.shape.push_back(range(1, 7));
        for (int i = 0; i < L; ++i) s.shape.push_back(i == L - 1 ? 1 : range(1, 10));
        for (int i = 0; i < L; ++i) s.w.push_back(ev::rvec(s.shape[i] * s.shape[i + 1], 1.5));
        s.a = real(0.5, 2.0); return s;
    }
    KMlp() : s(spec()) {}
    void step() override {
        if (p.empty()) { Scope sc; p.push_back(std::make_unique<MultilayerPerceptronKokkos>(s.shape, s.w, s.a)); return; }
        const int op = (int)choose(10), which = (int)choose(p.size()), n0 = s.shape[0];
        if (op <= 7) {
            const bool grad = op >= 3; const int b = kbatch(); const V in = ev::input(n0 * b, 2);
            event(grad ? "kokkos-mlp.evaluate_gradient" : "kokkos-mlp.evaluate");
            auto x = dev2<LR>(in, b, n0, "x"); Kokkos::View<double*> f = dev<double>(garbage(b), "f"); auto g = dev2<LR>(garbage(b * n0), b, n0, "g");
            { Scope sc; Kokkos::View<double*, LR> fr = f; if (grad) p[which]->evaluate_gradient(x, fr, g); else p[which]->evaluate(x, fr); }
            std::vector<LD> wf, wg;
            for (int i = 0; i < b; ++i) { auto [y, J] = ev::mlp_ref(s, in.data() + i * n0); wf.push_back(y[0]); wg.insert(wg.end(), J.begin(), J.end()); }
            expect_all_close("kokkos-mlp:value", "Kokkos MLP", host(f), wf, RTOL);
            if (grad) expect_all_close("kokkos-mlp:gradient", "Kokkos MLP gradient", host(g), wg, RTOL);
            expect_all_close("kokkos-mlp:input", "Kokkos MLP input after the call", host(x), in, 0);
        } else if (op == 8) { event("kokkos-mlp.copy"); Scope sc; if (p.size() < 3) p.push_back(std::make_unique<MultilayerPerceptronKokkos>(*p[which])); else p.erase(p.begin() + which); }
        else { event("kokkos-mlp.assign"); ev::MlpSpec s2 = spec(); { Scope sc; MultilayerPerceptronKokkos t(s2.shape, s2.w, s2.a); for (auto& q : p) *q = t; } s = s2; }
    }
};
struct KPoly : ev::Subject {
    ev::PolySpec s; std::unique_ptr<MultivariatePolynomialKokkos> p;
    const char* kind() const override { return "kokkos-polynomial"; }
    KPoly() : s(ev::poly_spec()) {}
    void step() override {
        if (!p) { Scope sc; p = std::make_unique<MultivariatePolynomialKokkos>(s.n, s.c, s.m); return; }
        const int op = (int)choose(10);
        if (op <= 7) {
            const bool grad = op & 1, simple = op >= 4; const V in = ev::input(s.n, 1.5);
            event(std::string("kokkos-polynomial.") + (grad ? "evaluate_gradient" : "evaluate") + (simple ? "_simple" : ""));
            Kokkos::View<const double*> x = dev<double>(in, "x"); auto g = dev<double>(garbage(s.n), "g"); double f;
            { Scope sc; f = grad ? (simple ? p->evaluate_gradient_simple(x, g) : p->evaluate_gradient(x, g)) : (simple ? p->evaluate_simple(x) : p->evaluate(x)); }
            auto [y, d] = ev::poly_ref(s, in.data());
            expect_all_close("kokkos-polynomial:value", "Kokkos polynomial", V{f}, std::vector<LD>{y}, RTOL, 30.0);
            if (grad) expect_all_close("kokkos-polynomial:gradient", "Kokkos polynomial gradient", host(g), d, RTOL, 30.0);
        } else if (op == 8) { event("kokkos-polynomial.copy"); Scope sc; auto q = std::make_unique<MultivariatePolynomialKokkos>(*p); p = std::move(q); }
        else { event("kokkos-polynomial.assign"); ev::PolySpec s2 = ev::poly_spec(); { Scope sc; *p = MultivariatePolynomialKokkos(s2.n, s2.c, s2.m); } s = s2; }
    }
};
struct KSpline : ev::Subject {
    double h; V v, d; std::unique_ptr<CubicSplineKokkos> p;
    const char* kind() const override { return "kokkos-spline"; }
    KSpline() { h = real(0.05, 1.0); const int n = range(2, 9); v = ev::rvec(n, 3); d = ev::rvec(n, 3); }
    void make() {
        const bool views = chance(1, 2);
        if (views) { auto a = dev<double>(v), b = dev<double>(d); Scope sc; p = std::make_unique<CubicSplineKokkos>(h, a, b); }
        else { Scope sc; p = std::make_unique<CubicSplineKokkos>(h, v, d); }
    }
    void step() override {
        if (!p) { make(); return; }
        const int op = (int)choose(10), n = (int)v.size();
        if (op <= 5) {
            double r = ev::spline_point(h, n); if (op >= 4 && r < 0.01 * h) r = 0.01 * h;
            const int i = std::min((int)(r / h), n - 2); auto [f, g] = ev::spline_ref(h, v, d, r, i);
            const double sc0 = 30 * (1 + 1 / h); const bool div = op >= 4;
            event("kokkos-spline.evaluate"); std::tuple<double, double> y{0, 0};
            { Scope sc; if (op <= 1) std::get<0>(y) = p->evaluate(r); else y = div ? p->evaluate_deriv_divided(r) : p->evaluate_deriv(r); }
            expect_close("kokkos-spline:value", "CubicSplineKokkos value", std::get<0>(y), f, sc0, RTOL);
            if (op > 1) expect_close("kokkos-spline:deriv", "CubicSplineKokkos derivative", std::get<1>(y), div ? g / r : g, sc0 * (div ? 1 / r : 1), RTOL);
        } else if (op <= 7) {
            event("kokkos-spline.out_of_range"); const double r = h * (n - 1) + h * real(0.01, 3.0); const int w = (int)choose(3); bool threw = false;
            try { Scope sc; if (w == 0) p->evaluate(r); else if (w == 1) p->evaluate_deriv(r); else p->evaluate_deriv_divided(r); }
            catch (const std::exception&) { heap_scope = 0; threw = true; }
            if (!threw) fail("kokkos-spline:accepts-out-of-range", "CubicSplineKokkos returned a value beyond its table");
        } else if (op == 8) { event("kokkos-spline.copy"); Scope sc; auto q = std::make_unique<CubicSplineKokkos>(*p); p = std::move(q); }
        else { event("kokkos-spline.assign"); KSpline o; o.make(); h = o.h; v = o.v; d = o.d; Scope sc; *p = *o.p; }
    }
};
struct KSplineSet : ev::Subject {
    double h; int n, k; V v, d; std::unique_ptr<CubicSplineSetKokkos> p;   // [spline][node]
    const char* kind() const override { return "kokkos-spline-set"; }
    KSplineSet() { h = real(0.05, 1.0); n = range(2, 8); k = chance(1, 8) ? range(8, 40) : range(1, 7); v = ev::rvec(n * k, 3); d = ev::rvec(n * k, 3); }
    void make() {
        if (chance(1, 2)) { auto a = dev2<typename Kokkos::View<double**>::array_layout>(v, k, n), b = dev2<typename Kokkos::View<double**>::array_layout>(d, k, n); Scope sc; p = std::make_unique<CubicSplineSetKokkos>(h, a, b); }
        else { std::vector<V> a, b; for (int j = 0; j < k; ++j) { a.push_back(V(v.begin() + j * n, v.begin() + (j + 1) * n)); b.push_back(V(d.begin() + j * n, d.begin() + (j + 1) * n)); } Scope sc; p = std::make_unique<CubicSplineSetKokkos>(h, a, b); }
    }
    void cmp(double r, const double* a, const double* b) {
        const int i = std::min((int)(r / h), n - 2); const double sc0 = 30 * (1 + 1 / h);
        for (int j = 0; j < k; ++j) {
            auto [f, g] = ev::spline_ref(h, V(v.begin() + j * n, v.begin() + (j + 1) * n), V(d.begin() + j * n, d.begin() + (j + 1) * n), r, i);
            expect_close("kokkos-spline-set:value", "CubicSplineSetKokkos value", a[j], f, sc0, RTOL);
            if (b) expect_close("kokkos-spline-set:deriv", "CubicSplineSetKokkos derivative", b[j], g, sc0, RTOL);
        }
    }
    void step() override {
        if (!p) { make(); return; }
        const int op = (int)choose(10);
        if (op <= 1) {
            const double r = ev::spline_point(h, n); ev::OutBuf a(k, sreal(1e3)), b(k, sreal(1e3)); event("kokkos-spline-set.span");
            { Scope sc; if (op) p->evaluate_derivs(r, a.span(), b.span()); else p->evaluate(r, a.span()); }
            a.check("CubicSplineSetKokkos"); b.check("CubicSplineSetKokkos"); const V x = a.values(), y = b.values(); cmp(r, x.data(), op ? y.data() : nullptr);
        } else if (op <= 4) {
            const double r = ev::spline_point(h, n); auto a = dev<double>(garbage(k), "values"), b = dev<double>(garbage(k), "derivs"); event("kokkos-spline-set.view");
            { Scope sc; if (op > 2) p->evaluate_derivs(r, a, b); else p->evaluate(r, a); }
            const V x = host(a), y = host(b); cmp(r, x.data(), op > 2 ? y.data() : nullptr);
        } else if (op <= 7) {
            const int b = kbatch(); V r(b); for (auto& x : r) x = ev::spline_point(h, n);
            auto y = dev2<LR>(garbage(b * k), b, k, "values"), z = dev2<LR>(garbage(b * k), b, k, "derivs"); Kokkos::View<const double*> rv = dev<double>(r, "r");
            event("kokkos-spline-set.batch"); { Scope sc; p->evaluate_derivs(rv, y, z); }
            const V a = host(y), c = host(z); for (int i = 0; i < b; ++i) cmp(r[i], a.data() + i * k, c.data() + i * k);
        } else if (op == 8) { event("kokkos-spline-set.copy"); Scope sc; auto q = std::make_unique<CubicSplineSetKokkos>(*p); p = std::move(q); }
        else { event("kokkos-spline-set.assign"); KSplineSet o; o.make(); h = o.h; n = o.n; k = o.k; v = o.v; d = o.d; Scope sc; *p = *o.p; }
    }
};
struct Neigh { int n; std::vector<int> type, num, ntype; V r, xyz; };
static Neigh draw_neigh(int ntypes, const std::function<double()>& dist) {
    Neigh s; s.n = chance(1, 10) ? 0 : range(1, 6);
    for (int i = 0; i < s.n; ++i) {
        s.type.push_back(range(0, ntypes - 1)); s.num.push_back(chance(1, 6) ? 0 : range(0, 5));
        for (int j = 0; j < s.num[i]; ++j) {
            s.ntype.push_back(range(0, ntypes - 1)); const double r = dist(), t = sreal(1), u = sreal(1), w = sreal(1), q = std::sqrt(t * t + u * u + w * w);
            s.r.push_back(r); s.xyz.insert(s.xyz.end(), {t / q * r, u / q * r, w / q * r});
        }
    }
    return s;
}
template <class P> struct KRadial : ev::Subject {
    double h; int nt, nf, nn; std::vector<std::vector<V>> v, d; std::unique_ptr<RadialFunctionSetKokkos<P>> p;
    const char* kind() const override { return sizeof(P) == 4 ? "kokkos-radial-float" : "kokkos-radial"; }
    KRadial() {
        h = real(0.05, 1.0); nt = range(1, 4); nf = chance(1, 8) ? range(9, 40) : range(1, 8); nn = range(2, 7);
        const int e = nt * (nt + 1) / 2; v.resize(e); d.resize(e);
        for (int a = 0; a < e; ++a) for (int f = 0; f < nf; ++f) { v[a].push_back(ev::rvec(nn, 3)); d[a].push_back(ev::rvec(nn, 3)); }
    }
    void make() { Scope sc; p = std::make_unique<RadialFunctionSetKokkos<P>>(h, v, d); }
    void step() override {
        if (!p) { make(); return; }
        const int op = (int)choose(8);
        if (op <= 5) {
            event("kokkos-radial.evaluate");
            const Neigh s = draw_neigh(nt, [&] { return ev::spline_point(h, nn); }); const int m = (int)s.r.size();
            Kokkos::View<const int*> ty = dev<int>(s.type, "node_types"), nu = dev<int>(s.num, "num_neigh"), ny = dev<int>(s.ntype, "neigh_types"); Kokkos::View<const double*> r = dev<double>(s.r, "r");
            const V gb = garbage((size_t)m * nf); std::vector<P> gp(gb.begin(), gb.end());
            auto R = dev2<LR>(gp, m, nf, "R"), D = dev2<LR>(gp, m, nf, "R_deriv");
            { Scope sc; p->evaluate(s.n, ty, nu, ny, r, R, D); }
            const V a = host(R), b = host(D); const double tol = sizeof(P) == 4 ? 3e-6 : RTOL, sc0 = 30 * (1 + 1 / h);
            int ij = 0;
            for (int i = 0; i < s.n; ++i) for (int j = 0; j < s.num[i]; ++j, ++ij) {
                const int x = std::min(s.type[i], s.ntype[ij]), y = std::max(s.type[i], s.ntype[ij]); int e = y - x; for (int q = 0; q < x; ++q) e += nt - q;
                for (int f = 0; f < nf; ++f) {
                    auto [w, g] = ev::spline_ref(h, v[e][f], d[e][f], s.r[ij], std::min((int)(s.r[ij] / h), nn - 2));
                    expect_close("kokkos-radial:value", "RadialFunctionSetKokkos value", a[ij * nf + f], w, sc0, tol);
                    expect_close("kokkos-radial:deriv", "RadialFunctionSetKokkos derivative", b[ij * nf + f], g, sc0, tol);
                }
            }
        } else if (op == 6) { event("kokkos-radial.copy"); Scope sc; auto q = std::make_unique<RadialFunctionSetKokkos<P>>(*p); p = std::move(q); }
        else { event("kokkos-radial.assign"); KRadial o; o.make(); h = o.h; nt = o.nt; nf = o.nf; nn = o.nn; v = o.v; d = o.d; Scope sc; *p = *o.p; }
    }
};
struct KZbl : ev::Subject {
    ev::ZblSpec s; std::unique_ptr<ZBLKokkos> p;
    const char* kind() const override { return "kokkos-zbl"; }
    KZbl() : s(ev::zbl_spec()) {}
    void step() override {
        if (!p) { Scope sc; p = std::make_unique<ZBLKokkos>(s.a_exp, s.a_pre, s.c, s.radii, s.p); return; }
        const int op = (int)choose(8);
        if (op <= 2) {
            const int zm = (int)s.radii.size() - 1, zu = range(1, zm), zv = chance(1, 4) ? zu : range(1, zm); const double r = ev::spline_point(0.3, 11) + 0.2; auto [f, g] = ev::zbl_ref(s, zu, zv, r); event("kokkos-zbl.pair");
            Kokkos::View<double*> out("out", 2);
            { Scope sc; const ZBLKokkos q = *p; Kokkos::parallel_for("pair", 2, [=](const int i) { out(i) = i ? q.compute_gradient(zu, zv, r) : q.compute(zu, zv, r); }); }
            const V o = host(out); const double scale = 14.4 * zu * zv / r * (1 + 1 / r);
            expect_close("kokkos-zbl:value", "Kokkos ZBL energy", o[0], f, scale, RTOL); expect_close("kokkos-zbl:gradient", "Kokkos ZBL gradient", o[1], g, scale * 10, RTOL);
        } else if (op <= 5) {
            event("kokkos-zbl.list"); const int nt = range(1, 3); std::vector<int> Z(nt); for (auto& z : Z) z = range(1, (int)s.radii.size() - 1);
            const Neigh q = draw_neigh(nt, [] { return real(0.3, 3.0); });
            const double e0 = sreal(5), f0 = sreal(5); auto e = dev<double>(V(q.n, e0), "node_energies"), f = dev<double>(V(q.xyz.size(), f0), "node_forces");
            Kokkos::View<const int*> ty = dev<int>(q.type), nu = dev<int>(q.num), ny = dev<int>(q.ntype), zz = dev<int>(Z); Kokkos::View<const double*> r = dev<double>(q.r), x = dev<double>(q.xyz);
            { Scope sc; p->compute_ZBL(q.n, ty, nu, ny, zz, r, x, e, f); }
            const V E = host(e), F = host(f); int ij = 0;
            for (int i = 0; i < q.n; ++i) {
                LD we = e0; double scl = 10;
                for (int j = 0; j < q.num[i]; ++j, ++ij) {
                    auto [u, g] = ev::zbl_ref(s, Z[q.type[i]], Z[q.ntype[ij]], q.r[ij]); we += u; const double sc1 = 14.4 * std::max(400, Z[q.type[i]] * Z[q.ntype[ij]]) / q.r[ij] * (1 + 1 / q.r[ij]); scl += sc1;
                    for (int k = 0; k < 3; ++k) expect_close("kokkos-zbl:force", "Kokkos ZBL pair force", F[3 * ij + k], f0 - q.xyz[3 * ij + k] / q.r[ij] * g, sc1 * 10, RTOL);
                }
                expect_close("kokkos-zbl:node-energy", "Kokkos ZBL node energy", E[i], we, scl, RTOL);
            }
        } else if (op == 6) { event("kokkos-zbl.copy"); Scope sc; auto q = std::make_unique<ZBLKokkos>(*p); p = std::move(q); }
        else { event("kokkos-zbl.assign"); ev::ZblSpec o = ev::zbl_spec(); { Scope sc; *p = ZBLKokkos(o.a_exp, o.a_pre, o.c, o.radii, o.p); } s = o; }
    }
};
struct KTools : ev::Subject {   // views kept between calls, filled with arrays of other sizes
    Kokkos::View<double*> a; Kokkos::View<double**, LR> b; Kokkos::View<double***, LR> c;
    const char* kind() const override { return "kokkos-tools"; }
    void step() override {
        event("kokkos-tools.views");
        const int op = (int)choose(6), x = range(0, 6), y = range(1, 5), z = range(1, 4); const V v = ev::rvec(op == 0 || op == 3 ? x : op == 1 || op == 4 ? x * y : x * y * z, 3); V got;
        if (op == 0) { Scope sc; set_kokkos_view(a, v); got = view2vector(a); }
        else if (op == 1) { Scope sc; set_kokkos_view(b, v, x, y); got = view2vector(b); }
        else if (op == 2) { Scope sc; set_kokkos_view(c, v, x, y, z); got = view2vector(c); }
        else if (op == 3) { Kokkos::View<double*> w; { Scope sc; w = toKokkosView("w", v); } got = host(w); }
        else if (op == 4) { Kokkos::View<double**> w; { Scope sc; w = toKokkosView("w", v, x, y); } got = host(w); }
        else { Scope sc; set_kokkos_view(a, v); got = view2vector(a); }
        expect_all_close("kokkos-tools:copy", "values copied through a view", got, v, 0);
    }
};
static std::unique_ptr<ev::Subject> make(int focus) {
    const int k = (int)choose(focus >= 0 ? 24 : 8);
    switch (k >= 8 ? focus : k) {
    case 0: return std::make_unique<KMlp>();
    case 1: return std::make_unique<KPoly>();
    case 2: return std::make_unique<KSpline>();
    case 3: return std::make_unique<KSplineSet>();
    case 4: return std::make_unique<KRadial<double>>();
    case 5: return std::make_unique<KRadial<float>>();
    case 6: return std::make_unique<KZbl>();
    default: return std::make_unique<KTools>();
    }
}
static void kernels() {
    ksim::begin_run((int)choose(9));
    set_preempt_scale(0);
    const int focus = (int)choose(8) - 1, nobj = range(1, 3), nops = range(3, 14); const uint64_t s0 = sched_switches;
    std::vector<std::unique_ptr<ev::Subject>> obj; for (int i = 0; i < nobj; ++i) obj.push_back(make(focus));
    for (int t = 0; t < nops; ++t) {
        const int k = (int)choose(nobj); note(std::string("op on ") + obj[k]->kind() + " #" + std::to_string(k));
        obj[k]->step(); ++ctx->stats->steps;
    }
    obj.clear(); Kokkos::fence();
    event("context-switches", sched_switches - s0); ctx->stats->faults["preemption"] += sched_switches - s0;
}
int main(int c, char** v) { return harness_main(c, v, {{KSIM_DEVICE ? "kokkos_device" : "kokkos_host", kernels}}); }
