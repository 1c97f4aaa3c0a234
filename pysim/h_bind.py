"""The Python bindings: histories of evaluator calls and of MACE calls with arrays of any layout."""
import copy, os
import numpy as np
import core
from core import choose, rng, chance, real, sreal, pick, event, note, fail, Violation
from common import Model
import symmetrix

# arrays given to and taken from the module: none may change behind the caller's back
given, taken = [], []
def give(a): given.append((a, a.copy())); return a
def expect_close(cls, what, got, *rest):
    core.expect_close(cls, what, got, *rest)
    if isinstance(got, np.ndarray): taken.append((got, got.copy()))
def begin(): given.clear(); taken.clear()
def unchanged():
    if any(not np.array_equal(a, b) for a, b in given): fail("bind:argument-changed", "an array given as input was changed by a call")
    if any(not np.array_equal(a, b) for a, b in taken): fail("bind:result-changed-later", "an array returned by a call changed during later calls")

def vec(n, a): return np.array([sreal(a) for _ in range(n)]) if n <= 40 else np.random.RandomState(choose(1 << 30)).uniform(-a, a, n)
used = []
def inputs(n, a):
    """fresh, or used earlier in this run, or that with one entry changed"""
    how = choose(4)
    if how >= 2:
        for u in reversed(used):
            if len(u) >= n > 0:
                x = u[:n].copy()
                if how == 3:
                    k = choose(n); x[k] = x[k] + 1e-5 * sreal(a) if chance(1, 3) else sreal(a)
                return x
    x = vec(n, a)
    if n and chance(1, 6):    # special values: exact zeros, whole numbers, equal entries, one large or tiny entry
        how = choose(5)
        if how == 0: x[choose(n)] = 0.0; x[choose(n)] = 0.0
        elif how == 1: x = np.round(x)
        elif how == 2: x[:] = x[0]
        else: x[choose(n)] *= 8 if how == 3 else 1e-9
    used.append(x.copy()); del used[:-10]; return x
def layout(x):
    """the same numbers as list, tuple or array of some layout"""
    x = np.asarray(x, float); k = choose(6)
    if k == 0: return x.tolist()
    if k == 1: return tuple(x.tolist())
    if k == 2 and len(x): y = np.full(2 * len(x), 7.5); y[::2] = x; return give(y[::2])
    if k == 3 and len(x): return give(x[::-1].copy()[::-1])
    if k == 4: y = x.copy(); y.flags.writeable = False; return give(y)
    return give(x.copy())
def batch(): return pick([0, 1, 1, 2, 3, 4, 5, 7, 9, 33, 130])

class Mlp:
    def __init__(s):
        L = rng(1, 3); s.shape = [rng(1, 6)] + [rng(1, 10) for _ in range(L - 1)] + [rng(1, 4)]; s.w = [vec(s.shape[i] * s.shape[i + 1], 1.5) for i in range(L)]; s.a = real(.5, 2)
        s.p = symmetrix.MultilayerPerceptron(s.shape, [layout(w) for w in s.w], s.a)
    def ref(s, X):
        F, G = [], []
        for x in X:
            v, J = x, np.eye(len(x))
            for l, w in enumerate(s.w):
                W = w.reshape(s.shape[l + 1], s.shape[l]); v = W @ v; J = W @ J
                if l < len(s.w) - 1: g = 1 / (1 + np.exp(-v)); J = (s.a * (g + v * g * (1 - g)))[:, None] * J; v = s.a * v * g
            F.append(v); G.append(J.reshape(-1))
        return (np.concatenate(F), np.concatenate(G)) if F else (np.zeros(0), np.zeros(0))
    def step(s):
        n = s.shape[0]; k = choose(4)
        if k == 0: x = inputs(n, 2); expect_close("mlp:value", "evaluate", s.p.evaluate(layout(x)), s.ref([x])[0], 1e-9)
        elif k == 1: x = inputs(n, 2); f, g = s.p.evaluate_gradient(layout(x)); F, G = s.ref([x]); expect_close("mlp:value", "evaluate_gradient", f, F, 1e-9); expect_close("mlp:gradient", "evaluate_gradient", g, G, 1e-9)
        else:
            b = batch(); x = inputs(n * b, 2); F, G = s.ref(x.reshape(b, n))
            if k == 2: expect_close("mlp:value", "evaluate_batch", s.p.evaluate_batch(layout(x), b), F, 1e-9)
            else: f, g = s.p.evaluate_gradient_batch(layout(x), b); expect_close("mlp:value", "evaluate_gradient_batch", f, F, 1e-9); expect_close("mlp:gradient", "evaluate_gradient_batch", g, G, 1e-9)
class Poly:
    def __init__(s):
        s.n = rng(1, 5); M = {tuple(sorted(choose(s.n) for _ in range(rng(1, 4)))) for _ in range(rng(1, 10))}; s.m = [list(m) for m in sorted(M)]; s.c = vec(len(s.m), 2)
        s.p = symmetrix.MultivariatePolynomial(s.n, layout(s.c), s.m)
    def ref(s, X):
        F, G = [], []
        for x in X:
            f, g = 0.0, np.zeros(s.n)
            for c, m in zip(s.c, s.m):
                f += c * np.prod(x[m])
                for i in range(len(m)): g[m[i]] += c * np.prod(x[m[:i] + m[i + 1:]])
            F.append(f); G.append(g)
        return np.array(F), (np.concatenate(G) if G else np.zeros(0))
    def step(s):
        k = choose(6)
        if k <= 3:
            x = inputs(s.n, 1.5); F, G = s.ref([x])
            if k == 0: expect_close("polynomial:value", "evaluate", [s.p.evaluate(layout(x))], F, 1e-9, 1.0)
            elif k == 1: expect_close("polynomial:value", "evaluate_simple", [s.p.evaluate_simple(layout(x))], F, 1e-9, 1.0)
            else: f, g = (s.p.evaluate_gradient if k == 2 else s.p.evaluate_gradient_simple)(layout(x)); expect_close("polynomial:value", "evaluate_gradient", [f], F, 1e-9, 1.0); expect_close("polynomial:gradient", "evaluate_gradient", g, G, 1e-9, 1.0)
        else: b = batch(); x = inputs(s.n * b, 1.5); F, G = s.ref(x.reshape(b, s.n)); f, g = s.p.evaluate_batch(layout(x), b); expect_close("polynomial:value", "evaluate_batch", f, F, 1e-9, 1.0); expect_close("polynomial:gradient", "evaluate_batch", g, G, 1e-9, 1.0)
def hermite(h, v, d, r):
    i = int(r / h); t = r / h - i
    f = (1 + 2 * t) * (1 - t) ** 2 * v[i] + t * (1 - t) ** 2 * h * d[i] + t * t * (3 - 2 * t) * v[i + 1] + t * t * (t - 1) * h * d[i + 1]
    g = (6 * t * t - 6 * t) * (v[i] - v[i + 1]) / h + (3 * t * t - 4 * t + 1) * d[i] + (3 * t * t - 2 * t) * d[i + 1]
    return f, g
class Spline:
    def __init__(s): s.h = real(.05, 1); n = rng(2, 9); s.v, s.d = vec(n, 3), vec(n, 3); s.p = symmetrix.CubicSpline(s.h, layout(s.v), layout(s.d))
    def step(s):
        r = s.h * (choose(len(s.v) - 1) + (real(.02, .98) if chance(7, 8) else 1e-6)); f, g = hermite(s.h, s.v, s.d, r); k = choose(4); sc = 30 * (1 + 1 / s.h)
        if k == 0: expect_close("spline:value", "evaluate", [s.p.evaluate(r)], [f], 1e-9, sc)
        elif k == 1: y = s.p.evaluate_deriv(r); expect_close("spline:deriv", "evaluate_deriv", y, [f, g], 1e-9, sc)
        elif k == 2: y = s.p.evaluate_deriv_divided(r); expect_close("spline:deriv", "evaluate_deriv_divided", y, [f, g / r], 1e-9, sc * max(1, 1 / r))
        else:
            try: pick([s.p.evaluate, s.p.evaluate_deriv, s.p.evaluate_deriv_divided])(s.h * (len(s.v) - 1 + real(.1, 3)))
            except (ValueError, RuntimeError, IndexError): return
            fail("spline:accepts-out-of-range", "CubicSpline returned a value beyond its table")
class SplineSet:
    def __init__(s):
        s.h = real(.05, 1); n = rng(2, 7); k = rng(1, 9); s.v = [vec(n, 3) for _ in range(k)]; s.d = [vec(n, 3) for _ in range(k)]
        s.p = symmetrix.CubicSplineSet(s.h, [layout(x) for x in s.v], [layout(x) for x in s.d])
    def out(s):
        """an output array inside a larger one: (base, view, mask of the base that belongs to the view, kind)"""
        k = len(s.v); kind = pick(["plain", "slice", "plain", "strided", "reversed", "row", "column", "float32"])
        base = np.full(4 * k + 12, sreal(1e3), np.float32 if kind == "float32" else float)
        if kind == "plain" or kind == "float32": base = base[:k].copy(); v = base
        elif kind == "slice": v = base[3:3 + k]
        elif kind == "strided": v = base[2:2 + 2 * k:2]
        elif kind == "reversed": v = base[5:5 + k][::-1]
        elif kind == "row": base = base[:3 * k].reshape(3, k).copy(); v = base[1]
        else: base = base[:3 * k].reshape(k, 3).copy(); v = base[:, 1]
        mark = np.zeros(base.shape, bool)
        idx = np.arange(base.size).reshape(base.shape); m = {"plain": idx, "float32": idx}.get(kind)
        if m is None: m = idx[3:3 + k] if kind == "slice" else idx[2:2 + 2 * k:2] if kind == "strided" else idx[5:5 + k] if kind == "reversed" else idx[1] if kind == "row" else idx[:, 1]
        mark.reshape(-1)[np.asarray(m).reshape(-1)] = True
        return base, v, mark, kind
    def step(s):
        r = s.h * (choose(len(s.v[0]) - 1) + real(.02, .98)); w = np.array([hermite(s.h, v, d, r) for v, d in zip(s.v, s.d)]); sc = 30 * (1 + 1 / s.h)
        b1, v1, m1, k1 = s.out(); b2, v2, m2, k2 = s.out(); o1, o2 = b1.copy(), b2.copy(); der = chance(1, 2)
        contiguous = all(k in ("plain", "slice", "row") for k in ([k1, k2] if der else [k1]))
        try: s.p.evaluate_derivs(r, v1, v2) if der else s.p.evaluate(r, v1)
        except (TypeError, ValueError, BufferError) as e:
            if contiguous: fail("spline-set:refused", f"output arrays {k1}, {k2} were refused: {e}")
            event("bind.layout-refused")
            if not (np.array_equal(b1, o1) and np.array_equal(b2, o2)): fail("spline-set:foreign-write", "a refused call wrote to its arguments")
            return
        for b, o, m in [(b1, o1, m1), (b2, o2, m2)]:
            if not np.array_equal(b[~m], o[~m]): fail("spline-set:foreign-write", f"a call with output layout {k1}, {k2} wrote outside its output arrays")
        if not der and not np.array_equal(b2, o2): fail("spline-set:foreign-write", "evaluate wrote to an array it was not given")
        tol = 1e-9 if contiguous or "float32" not in (k1, k2) else 1e-6
        expect_close("spline-set:value", f"values ({k1})", v1, w[:, 0], tol, sc)
        if der: expect_close("spline-set:deriv", f"derivatives ({k2})", v2, w[:, 1], tol, sc)
class Zbl:
    TYPE = "ZBL"; E = (-3.2, -.9423, -.4028, -.2016)
    def __init__(s):
        s.ae, s.ap, s.c, s.cr, s.q = real(.2, .5), real(.7, 1), np.abs(vec(4, .5)), (np.array([real(.3, 2) for _ in range(20)]) if chance(1, 2) else 1.1 + vec(119, .8)), rng(2, 7)
        s.p = getattr(symmetrix, s.TYPE)(s.ae, s.ap, layout(s.c), layout(s.cr), s.q)
    def env(s, r, m, p):
        if r >= m: return 0.0, 0.0
        x = r / m
        return 1 - (p + 1) * (p + 2) / 2 * x ** p + p * (p + 2) * x ** (p + 1) - p * (p + 1) / 2 * x ** (p + 2), (-(p + 1) * (p + 2) / 2 * p * x ** (p - 1) + p * (p + 2) * (p + 1) * x ** p - p * (p + 1) / 2 * (p + 2) * x ** (p + 1)) / m
    def step(s):
        q = choose(4); z = len(s.cr) - 1; u = rng(1, z); v = u if chance(1, 4) else rng(1, z); m = s.cr[u] + s.cr[v]; r = real(.1, 1.3) * m
        if q >= 2:
            R, pp = real(.5, 4), rng(2, 7); r = real(.1, 1.2) * R; w = s.env(r, R, pp)
            expect_close("zbl:envelope", "envelope", [s.p.compute_envelope(r, R, pp) if q == 2 else s.p.compute_envelope_gradient(r, R, pp)], [w[q - 2]], 1e-9, 1.0); return
        a = s.ap * .529 / (u ** s.ae + v ** s.ae); e = [c * np.exp(x * r / a) for c, x in zip(s.c, s.E)]; phi = sum(e); dphi = sum(x * y for x, y in zip(s.E, e)) / a
        V, dV = 14.3996 * u * v / r * phi, 14.3996 * u * v * (r * dphi - phi) / r ** 2; f, df = s.env(r, m, s.q)
        if q == 0: expect_close("zbl:value", "compute", [s.p.compute(u, v, r)], [.5 * V * f], 1e-9, 14.4 * u * v / r)
        else: expect_close("zbl:gradient", "compute_gradient", [s.p.compute_gradient(u, v, r)], [.5 * (V * df + dV * f)], 1e-9, 14.4 * u * v / r * (1 + 1 / r) * 10)
KINDS = [Mlp, Poly, Spline, SplineSet, Zbl]
def bind_small():
    begin(); used.clear(); objs = [pick(KINDS)() for _ in range(rng(1, 4))]
    for _ in range(rng(4, 25)):
        core.ctx.stats.steps += 1; o = pick(objs); note("call on " + type(o).__name__); event("bind." + type(o).__name__); o.step()
        if chance(1, 12): o = None; k = choose(len(objs)); objs[k] = None; objs[k] = pick(KINDS)(); event("bind.recreate")
    o = objs = None; unchanged()

models = {}
def get_model(seed, zbl):
    """a reference model (kept) with an evaluator of this run's own, so that a run does not depend on earlier ones"""
    if (seed, zbl) not in models: models[seed, zbl] = Model(seed, 3, 3, 2, 1, zbl)
    m = copy.copy(models[seed, zbl]); m.zbl = zbl; path = os.path.abspath(f"bm{os.getpid()}.json")
    with open(path, "w") as f: f.write(m.text)
    m.ev = symmetrix.MACE(path); os.unlink(path)
    return m
def ilayout(x):
    """integers as list or array of some type and layout"""
    x = np.asarray(x, np.int64); k = choose(6)
    if k == 0: return x.tolist()
    if k == 1: return give(x.astype(np.int32))
    if k == 2 and len(x): y = np.full(3 * len(x), 1, np.int32); y[::3] = x; return give(y[::3])
    if k == 3 and len(x): return give(x.astype(np.int32)[::-1].copy()[::-1])
    if k == 4: return give(x.astype(np.int16))
    return give(x.copy())
def xlayout(x):
    x = np.asarray(x, float).reshape(-1, 3); k = choose(7)
    if k == 0: return x.reshape(-1).tolist()
    if k == 1: return give(np.asfortranarray(x))
    if k == 2 and len(x): y = np.full((2 * len(x), 3), .77); y[::2] = x; return give(y[::2])
    if k == 3 and len(x): y = np.full((len(x), 5), .77); y[:, 1:4] = x; return give(y[:, 1:4])
    if k == 4: return give(x.copy())
    return give(x.reshape(-1).copy())
def structure(m):
    n = pick([1, 2, 3, 4, 6, 0]); t = [choose(len(m.Z)) for _ in range(n)]; nn, idx, nt, xyz, r = [], [], [], [], []
    for i in range(n):
        c = rng(0, 4)
        for _ in range(c):
            j = choose(n); d = np.array([sreal(1.0) for _ in range(3)]); d *= real(.5, .97 * m.r_cut) / np.linalg.norm(d); idx.append(j); nt.append(t[j]); xyz.append(d); r.append(float(np.linalg.norm(d)))
        nn.append(c)
    return n, t, nn, idx, nt, xyz, r
def roundtrip(ev, n, names):
    """read an intermediate array and write the same numbers back, in some layout"""
    a = pick(names); v = getattr(ev, a)
    if not len(v): return
    note("round trip of " + a); event("bind.roundtrip")
    x = np.asarray(v); c = choose(4)
    if c == 0: y = np.full(2 * len(x), .5, x.dtype); y[::2] = x; x = y[::2]
    elif c == 1: x = x.tolist()
    elif c == 2: x = x[::-1].copy()[::-1]
    setattr(ev, a, x)
    if not np.array_equal(np.asarray(v), np.asarray(getattr(ev, a))): fail("mace:roundtrip", f"{a} read back differs from what was assigned")
def staged(ev, n, t, nn, idx, nt, xyz, r, mess):
    I, X, R = ilayout, xlayout, layout
    ev.node_energies = layout(np.zeros(n)); ev.node_forces = layout(np.zeros(3 * len(r)))
    f = [lambda: ev.compute_R0(n, I(t), I(nn), I(nt), R(r)), lambda: ev.compute_R1(n, I(t), I(nn), I(nt), R(r)), lambda: ev.compute_Y(X(xyz)),
         lambda: ev.compute_A0(n, I(t), I(nn), I(nt)), lambda: ev.compute_A0_scaled(n, I(t), I(nn), I(nt), R(r)), lambda: ev.compute_M0(n, I(t)), lambda: ev.compute_H1(n),
         lambda: ev.compute_Phi1(n, I(nn), I(idx)), lambda: ev.compute_A1(n), lambda: ev.compute_A1_scaled(n, I(t), I(nn), I(nt), R(r)), lambda: ev.compute_M1(n, I(t)), lambda: ev.compute_H2(n, I(t))]
    names = [["R0"], ["R0", "R1"]] + [["R0", "R1"]] + [["A0", "R0"]] * 2 + [["A0", "M0"], ["H1", "M0", "A0"], ["Phi1", "H1"], ["A1", "Phi1"], ["A1", "H1"], ["M1", "A1"], ["H2", "H1", "M1"]]
    for g, nm in zip(f, names):
        g()
        if mess and chance(1, 3): roundtrip(ev, n, nm)
    E = ev.compute_readouts(n, I(t))
    b = [lambda: ev.reverse_H2(n, I(t), False), lambda: ev.reverse_M1(n, I(t)), lambda: ev.reverse_A1_scaled(n, I(t), I(nn), I(nt), X(xyz), R(r)), lambda: ev.reverse_A1(n),
         lambda: ev.reverse_Phi1(n, I(nn), I(idx), X(xyz), R(r), False, False), lambda: ev.reverse_H1(n), lambda: ev.reverse_M0(n, I(t)), lambda: ev.reverse_A0_scaled(n, I(t), I(nn), I(nt), X(xyz), R(r)),
         lambda: ev.reverse_A0(n, I(t), I(nn), I(nt), X(xyz), R(r))]
    back = [["H2_adj", "H1_adj"], ["M1_adj", "M1"], ["A1_adj"], ["A1_adj", "Phi1_adj"], ["H1_adj", "Phi1_adj"], ["M0_adj", "H1_adj"], ["A0_adj"], ["A0_adj"], ["A0_adj"]]
    for g, nm in zip(b, back):
        g()
        if mess and chance(1, 4): roundtrip(ev, n, nm)
    return E
def bind_mace():
    begin(); ms = [get_model(choose(12), choose(2)) for _ in range(rng(1, 2))]
    for _ in range(rng(3, 9)):
        core.ctx.stats.steps += 1; m = pick(ms); q = structure(m); n, t, nn, idx, nt, xyz, r = q
        E, F = m.eval_lists(t, nn, idx, nt, xyz, r)
        note(f"{n} atoms, {len(r)} pairs"); event("bind.mace")
        if not m.zbl and chance(1, 2): event("bind.staged"); staged(m.ev, *q, chance(1, 2))
        else: m.ev.compute_node_energies_forces(n, ilayout(t), ilayout(nn), ilayout(idx), ilayout(nt), xlayout(xyz), layout(r))
        if chance(1, 6): roundtrip(m.ev, n, ["node_energies", "node_forces"])
        core.expect_close("mace:energies", "node energies", np.asarray(m.ev.node_energies)[:n], E, 1e-7, 1.0)
        core.expect_close("mace:forces", "pair forces", np.asarray(m.ev.node_forces)[:3 * len(r)].reshape(-1, 3), F, 1e-7, 1.0)
    unchanged()

# ---- helper functions
import cmath, itertools, math
def canon(ps): return sorted(sorted(sorted(int(x) for x in b) for b in p) for p in ps)
def set_partitions(v):
    """partitions of the positions of v"""
    if len(v) == 1: return [[[v[0]]]]
    out = []
    for p in set_partitions(v[:-1]):
        out.append(p + [[v[-1]]])
        for k in range(len(p)): out.append(p[:k] + [p[k] + [v[-1]]] + p[k + 1:])
    return out
def same(what, got, want, arg):
    core.ctx.stats.evaluations += 1; g = [[int(x) for x in r] for r in got] if what not in ("partitions", "two_part_partitions") else canon(got)
    core.ctx.mix(repr(g).encode())
    if g != want: fail("helpers:" + what, f"{what}{arg}: got {str(g)[:200]} expected {str(want)[:200]}")
def ylm(l, m, th, ph):
    a = abs(m); x, s = math.cos(th), math.sin(th); p = 1.0
    for k in range(1, a + 1): p *= (2 * k - 1) * s
    q = x * (2 * a + 1) * p if l > a else p
    for k in range(a + 2, l + 1): p, q = q, ((2 * k - 1) * x * q - (k + a - 1) * p) / (k - a)
    y = (-1) ** a * math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - a) / math.factorial(l + a)) * q * cmath.exp(1j * a * ph)
    return (-1) ** a * y.conjugate() if m < 0 else y
def rylm(l, m, th, ph):
    y = ylm(l, abs(m), th, ph)
    return y.real if m == 0 else math.sqrt(2) * (-1) ** m * (y.imag if m < 0 else y.real)
def ints(lo, hi):
    n = rng(lo, hi); v = [rng(-3, 6) for _ in range(n)] if chance(1, 3) else list(range(rng(-2, 4), 60))[:n]
    return v
def bind_helpers():
    for _ in range(rng(4, 20)):
        core.ctx.stats.steps += 1; k = choose(11); event("bind.helper%d" % k)
        if k == 0:
            n = rng(0, 34); j = rng(-1, n + 1) if n < 17 else pick([rng(-1, 4), n - rng(-1, 4)]); g = symmetrix._binomial_coefficient(n, j); w = math.comb(n, j) if 0 <= j <= n else 0
            if g != w: fail("helpers:binomial", f"binomial({n}, {j}): got {g} expected {w}")
        elif k == 1:
            v = ints(0, 12); g = symmetrix._sum(ilayout(v))
            if g != sum(v): fail("helpers:sum", f"sum({v}): got {g}")
        elif k == 2: v = ints(1, 6); same("partitions", symmetrix._partitions(ilayout(v)), canon(set_partitions(v)), v)
        elif k <= 4: v = ints(1, 7); same("two_part_partitions", symmetrix._two_part_partitions(ilayout(v)), canon([p for p in set_partitions(v) if len(p) == 2]), v)
        elif k == 5: n = rng(0, 6); same("permutations", symmetrix._permutations(n), [list(p) for p in itertools.permutations(range(n))], n)
        elif k == 6: v = ints(0, 9); same("combinations", symmetrix._combinations(ilayout(v), 2), [list(p) for p in itertools.combinations(v, 2)], v)
        elif k == 7: v, r = ints(1, 4), rng(0, 4); same("product_repeat", symmetrix._product_repeat(ilayout(v), r), [list(p) for p in itertools.product(v, repeat=r)], (v, r))
        elif k == 8: d, m = rng(0, 4), rng(1, 5); same("generate_indices", symmetrix._generate_indices(d, m), [list(p) for p in itertools.product(range(m), repeat=d)], (d, m))
        else:
            l = rng(0, 5); m = rng(0, 2 * l) - l; x = [sreal(3) for _ in range(3)]
            if chance(1, 3): x[choose(3)] = 0.0; x[choose(3)] = 0.0
            r = math.sqrt(sum(c * c for c in x)); th, ph = math.acos(max(-1, min(1, x[2] / r))), math.atan2(x[1], x[0]); w = ylm(l, m, th, ph); wr = rylm(l, m, th, ph)
            for f, q in ((symmetrix.sph_harm_xyz, x), (symmetrix.sph_harm, (th, ph)), (symmetrix.sphericart_sph_harm, x)): g = f(l, m, *q); expect_close("helpers:harmonics", f"{f.__name__}({l},{m},{list(q)})", [g.real, g.imag], [w.real, w.imag], 1e-7, 1.0)
            for f, q in ((symmetrix.real_sph_harm_xyz, x), (symmetrix.real_sph_harm, (th, ph)), (symmetrix.sphericart_real_sph_harm, x)): expect_close("helpers:harmonics", f"{f.__name__}({l},{m},{list(q)})", [f(l, m, *q)], [wr], 1e-7, 1.0)
            pts = [[sreal(2) for _ in range(3)] for _ in range(rng(0, 3))]; g = np.asarray(symmetrix.sphericart_complex(l, layout(np.array(pts).reshape(-1)))).reshape(-1)
            w = [ylm(a, b, math.acos(p[2] / math.sqrt(sum(c * c for c in p))), math.atan2(p[1], p[0])) for p in pts for a in range(l + 1) for b in range(-a, a + 1)]
            expect_close("helpers:harmonics", f"sphericart_complex({l})", np.array([g.real, g.imag]), np.array([np.real(w), np.imag(w)]).reshape(2, -1), 1e-7, 1.0)

if __name__ == "__main__": core.main({"bind_helpers": bind_helpers, "bind_small": bind_small, "bind_mace": bind_mace})
