"""The Kokkos classes of the Python module, built against the simulated Kokkos runtime: histories
of calls with arrays of any layout while kernels start late, in any order, on dirty memory."""
import copy, ctypes, os
import numpy as np
import core
from core import choose, rng, chance, real, sreal, pick, event, fault, note, fail, expect_close
from common import Model
import h_bind as hb
from h_bind import structure, roundtrip, staged, vec, layout, ilayout, xlayout, batch, inputs, hermite, symmetrix

k = ctypes.CDLL(os.environ["V_PYMOD"])
k.ksim_seed.argtypes = [ctypes.c_uint64]; k.ksim_violation.restype = ctypes.c_char_p; k.ksim_late.restype = k.ksim_kernels.restype = ctypes.c_uint64
def begin():
    symmetrix._kokkos_is_initialized() or symmetrix._init_kokkos()
    k.ksim_seed(1 + choose(1 << 24))
def settle():
    v = k.ksim_violation()
    if v: fail("kokkos:" + v.decode().split(":")[0].split('"')[0].strip(), v.decode())

def in2(x):
    """a matrix in some layout"""
    x = np.asarray(x, float); n, m = x.shape; c = choose(7)
    if c == 0 and n and m: return x.tolist()
    if c == 1: return np.asfortranarray(x)
    if c == 2: y = np.full((2 * n, m), .77); y[::2] = x; return y[::2]
    if c == 3: y = np.full((n, m + 3), .77); y[:, 1:m + 1] = x; return y[:, 1:m + 1]
    if c == 4: y = x[::-1].copy(); return y[::-1]
    if c == 5: y = x.copy(); y.flags.writeable = False; return y
    return x.copy()
def out(shape):
    """an output array inside a larger one: base, view, mask, kind"""
    shape = tuple(shape); kind = pick(["plain", "plain", "slice", "strided", "reversed", "column", "fortran", "float32", "plain"])
    if kind == "fortran" and (len(shape) < 2 or min(shape) < 2): kind = "plain"
    if np.prod(shape, dtype=int) < 2: kind = pick(["plain", "float32"])
    fill = sreal(1e3); dt = np.float32 if kind == "float32" else float
    def make(a):
        if kind in ("plain", "float32"): return a(shape), lambda b: b
        if kind == "slice": return a((shape[0] + 3,) + shape[1:]), lambda b: b[2:2 + shape[0]]
        if kind == "strided": return a((2 * shape[0] + 2,) + shape[1:]), lambda b: b[1:1 + 2 * shape[0]:2]
        if kind == "reversed": return a((shape[0] + 2,) + shape[1:]), lambda b: b[1:1 + shape[0]][::-1]
        if kind == "column": return a(shape + (3,)), lambda b: b[..., 1]
        return a(shape[::-1]), lambda b: b.T
    base, sel = make(lambda s: np.full(s, fill, dt)); idx, _ = make(lambda s: np.arange(np.prod(s, dtype=int)).reshape(s))
    mask = np.zeros(base.size, bool); mask[np.asarray(sel(idx)).reshape(-1)] = True
    return base, sel(base), mask.reshape(base.shape), kind
def with_outputs(cls, call, shapes, wants, tol, scale):
    """call(*outputs) either fills the outputs and nothing else, or refuses and writes nothing"""
    o = [out(s) for s in shapes]; before = [b.copy() for b, _, _, _ in o]; kinds = [q[3] for q in o]
    note(f"outputs {kinds}")
    try: ret = call(*[v for _, v, _, _ in o])
    except (TypeError, ValueError, BufferError) as e:
        if all(q in ("plain", "slice") for q in kinds): fail(cls + ":refused", f"output arrays {kinds} were refused: {e}")
        event("bind.layout-refused"); settle()
        if any(not np.array_equal(b[0], c) for b, c in zip(o, before)): fail(cls + ":foreign-write", "a refused call wrote to its arguments")
        return None
    settle()
    for (b, v, m, q), c, w in zip(o, before, wants):
        if not np.array_equal(b[~m], c[~m]): fail(cls + ":foreign-write", f"a call with output layouts {kinds} wrote outside its output arrays")
        expect_close(cls, f"output ({q})", v, w, 1e-6 if q == "float32" else tol, scale)
    return ret
def unchanged(cls, x, f):
    """f(x) leaves x alone"""
    c = x.copy() if isinstance(x, np.ndarray) else None; r = f(x)
    if c is not None and not np.array_equal(c, x): fail(cls + ":input-changed", "the call changed its input array")
    return r

class Mlp:
    def __init__(s):
        L = rng(1, 3); s.shape = [rng(1, 6)] + [rng(1, 8) for _ in range(L - 1)] + [1]; s.w = [vec(s.shape[i] * s.shape[i + 1], 1.5) for i in range(L)]; s.a = real(.5, 2)
        s.p = symmetrix.MultilayerPerceptronKokkos(s.shape, [layout(w) for w in s.w], s.a)
    ref = hb.Mlp.ref
    def step(s):
        n = s.shape[0]; b = batch(); x = inputs(n * b, 2).reshape(b, n); F, G = s.ref(x); G = G.reshape(b, n)
        if b == 0 and chance(1, 2): return
        if chance(1, 3): unchanged("mlp", in2(x), lambda x: with_outputs("mlp:value", lambda f: s.p.evaluate(x, f), [(b,)], [F], 1e-9, 1e-3))
        else: unchanged("mlp", in2(x), lambda x: with_outputs("mlp:gradient", lambda f, g: s.p.evaluate_gradient(x, f, g), [(b,), (b, n)], [F, G], 1e-9, 1e-3))
class Poly:
    def __init__(s):
        s.n = rng(1, 5); M = {tuple(sorted(choose(s.n) for _ in range(rng(1, 4)))) for _ in range(rng(1, 10))}; s.m = [list(m) for m in sorted(M)]; s.c = vec(len(s.m), 2)
        s.p = symmetrix.MultivariatePolynomialKokkos(s.n, layout(s.c), s.m)
    ref = hb.Poly.ref
    def step(s):
        x = inputs(s.n, 1.5); F, G = s.ref([x]); q = choose(5); X = layout(x)
        if q < 2:
            f = unchanged("polynomial", X, s.p.evaluate if q == 0 else s.p.evaluate_simple); settle(); expect_close("polynomial:value", "evaluate", [f], F, 1e-9, 1.0)
        else:
            f = unchanged("polynomial", X, lambda X: with_outputs("polynomial:gradient", lambda g: (s.p.evaluate_gradient if q < 4 else s.p.evaluate_gradient_simple)(X, g), [(s.n,)], [G], 1e-9, 1.0))
            if f is not None: expect_close("polynomial:value", "evaluate_gradient", [f], F, 1e-9, 1.0)
class Spline:
    def __init__(s): s.h = real(.05, 1); n = rng(2, 9); s.v, s.d = vec(n, 3), vec(n, 3); s.p = symmetrix.CubicSplineKokkos(s.h, layout(s.v), layout(s.d))
    step = hb.Spline.step
class SplineSet:
    def __init__(s):
        s.h = real(.05, 1); n = rng(2, 7); c = rng(1, 9); s.v = [vec(n, 3) for _ in range(c)]; s.d = [vec(n, 3) for _ in range(c)]
        s.p = symmetrix.CubicSplineSetKokkos(s.h, [layout(x) for x in s.v], [layout(x) for x in s.d])
    def step(s):
        r = s.h * (choose(len(s.v[0]) - 1) + real(.02, .98)); w = np.array([hermite(s.h, v, d, r) for v, d in zip(s.v, s.d)]); sc = 30 * (1 + 1 / s.h); c = len(s.v)
        if chance(1, 2): with_outputs("spline-set:value", lambda v: s.p.evaluate(r, v), [(c,)], [w[:, 0]], 1e-9, sc)
        else: with_outputs("spline-set:deriv", lambda v, d: s.p.evaluate_derivs(r, v, d), [(c,), (c,)], [w[:, 0], w[:, 1]], 1e-9, sc)
class Zbl(hb.Zbl): TYPE = "ZBLKokkos"
KINDS = [Mlp, Mlp, Poly, Poly, Spline, SplineSet, Zbl]
def bind_small_kokkos():
    begin(); hb.begin(); hb.used.clear(); objs = [pick(KINDS)() for _ in range(rng(1, 3))]; l0 = k.ksim_late()
    for _ in range(rng(4, 16)):
        core.ctx.stats.steps += 1; o = pick(objs); note("call on " + type(o).__name__); event("bind." + type(o).__name__); o.step(); settle()
        if chance(1, 12): objs[choose(len(objs))] = pick(KINDS)(); event("bind.recreate"); settle()
    if k.ksim_late() > l0: fault("kernel-started-late", int(k.ksim_late() - l0))
    o = objs = None; settle(); k.ksim_seed(0); hb.unchanged()

models = {}
def get_model(seed, single, zbl):
    """a reference model (kept) with an evaluator of this run's own, so that a run does not depend on earlier ones"""
    if (seed, zbl) not in models: models[seed, zbl] = Model(seed, 3, 3, 2, 1, zbl)
    m = copy.copy(models[seed, zbl]); m.zbl = zbl; path = os.path.abspath(f"bk{os.getpid()}.json")
    with open(path, "w") as f: f.write(m.text)
    m.ev = (symmetrix.MACEKokkosFloat if single else symmetrix.MACEKokkos)(path); os.unlink(path); settle()
    return m
def bind_mace_kokkos():
    begin(); hb.begin(); single = chance(1, 3); ms = [get_model(choose(5), single, choose(2)) for _ in range(rng(1, 2))]; l0 = k.ksim_late()
    for _ in range(rng(3, 7)):
        core.ctx.stats.steps += 1; m = ms[choose(len(ms))]; q = structure(m); n, t, nn, idx, nt, xyz, r = q; E, F = m.eval_lists(t, nn, idx, nt, xyz, r)
        note(f"{n} atoms, {len(r)} pairs"); event("bind.mace")
        if not m.zbl and n and chance(1, 2):
            event("bind.staged"); e = staged(m.ev, *q, chance(1, 2)); settle()
            expect_close("mace:total", "total energy", [e], [sum(E)], 2e-4 if single else 1e-7, 1.0)
        else: m.ev.compute_node_energies_forces(n, ilayout(t), ilayout(nn), ilayout(idx), ilayout(nt), xlayout(xyz), layout(r))
        settle()
        if chance(1, 6): roundtrip(m.ev, n, ["node_energies", "node_forces"])
        tol = 2e-4 if single else 1e-7
        expect_close("mace:energies", "node energies", np.asarray(m.ev.node_energies)[:n], E, tol, 1.0)
        expect_close("mace:forces", "pair forces", np.asarray(m.ev.node_forces)[:3 * len(r)].reshape(-1, 3), F, tol, 1.0)
        settle()
    if k.ksim_late() > l0: fault("kernel-started-late", int(k.ksim_late() - l0))
    m = ms = None; settle(); k.ksim_seed(0); hb.unchanged()

if __name__ == "__main__": core.main({f + s: g for f, g in [("bind_small_kokkos", bind_small_kokkos), ("bind_mace_kokkos", bind_mace_kokkos)] for s in ("", "_device")})
