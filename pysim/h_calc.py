"""Histories of the ASE calculator."""
import ctypes, os, sys
import numpy as np
import core
from core import choose, rng, chance, real, sreal, pick, event, fault, note, fail, expect_close, Violation
from common import Model
import ase
from ase import Atoms
import symmetrix
from symmetrix import symmetrix_calc as sc
CALCFILE = os.path.realpath(sc.__file__)
core_module = symmetrix.symmetrix
KOKKOS = hasattr(core_module, "MACEKokkos")
if KOKKOS:
    ksim = ctypes.CDLL(os.environ["V_PYMOD"]); ksim.ksim_seed.argtypes = [ctypes.c_uint64]; ksim.ksim_violation.restype = ctypes.c_char_p; ksim.ksim_late.restype = ctypes.c_uint64

class Interrupt(BaseException): pass
class Injected(MemoryError): pass
state = dict(lines=-1, hit=False, nl=False, begun=False)
def tracer(frame, ev, arg):
    if os.path.realpath(frame.f_code.co_filename) != CALCFILE: return None
    def local(fr, e, a):
        if e == "line" and state["lines"] >= 0 and state["begun"]:   # the interrupt arrives during or after the long-running part
            if state["lines"] == 0: state["lines"] = -1; state["hit"] = True; raise Interrupt()
            state["lines"] -= 1
        return local
    return local
real_nl = getattr(sc, "neighbor_list", None)
def nl(*a, **k):
    state["begun"] = True
    if state["nl"]: state["nl"] = False; state["hit"] = True; raise Injected("no memory for the neighbour list")
    return real_nl(*a, **k)
if real_nl: sc.neighbor_list = nl

models = {}
def get_model(seed):
    if seed not in models:
        if len(models) > 40: models.clear()
        m = Model(seed, nel=3, nch=3, lmax=2, Lmax=1); m.path = os.path.abspath(f"m{os.getpid()}.{seed}.json")
        models[seed] = m
    m = models[seed]
    if not os.path.exists(m.path): open(m.path, "w").write(m.text)
    return m

def far_enough(pos, p, dmin=0.75): return len(pos) == 0 or np.min(((np.asarray(pos) - p) ** 2).sum(1)) > dmin ** 2
def draw_atoms(m):
    n = pick([0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 13, 24, 0])
    if n == 0 and chance(1, 3): n = rng(30, 140)     # a big structure now and then
    L = m.r_cut * real(0.8, 2.2) * (1 if n < 10 else 1.6 if n < 30 else 3.2); pos = []
    for _ in range(n):
        for _t in range(12):
            p = np.array([real(0, L) for _ in range(3)])
            if far_enough(pos, p): pos.append(p); break
    numbers = [pick(m.Z) for _ in pos]
    kind = choose(4)
    if kind == 0: cell, pbc = None, False
    else:
        c = np.diag([max(L, 1.6)] * 3) * 1.0
        if chance(1, 2): c = c + np.array([[0, 0, 0], [sreal(0.3), 0, 0], [sreal(0.3), sreal(0.3), 0]])
        cell, pbc = c, [True] * 3 if kind == 1 else [False] * 3 if kind == 2 else [chance(1, 2), chance(1, 2), chance(1, 2)]
    return Atoms(numbers=numbers, positions=np.array(pos).reshape(-1, 3), cell=cell, pbc=pbc)

def edit(at, m, old):
    n = len(at); k = choose(21)
    for i in range(n):
        if int(at.numbers[i]) not in m.Z and chance(1, 2): at.numbers[i] = pick(m.Z); return "replace an element the model does not know"
    if k == 13 and n: at.positions[choose(n), choose(3)] += sreal(10.0 ** -rng(2, 6)); return "move one coordinate a little"
    if k == 14 and at.cell.rank == 3: c = np.array(at.cell); c[choose(3)] *= real(.97, 1.05); at.set_cell(c, scale_atoms=chance(1, 2)); return "strain one cell vector"
    if k == 15 and at.cell.rank == 3: c = np.array(at.cell); c[:, [0, 1]] = c[:, [1, 0]] if chance(1, 2) else c[:, [0, 1]]; at.set_cell(c if chance(1, 2) else c[[1, 0, 2]]); return "change handedness of the cell"
    if k == 16 and n > 1: i, j = choose(n), choose(n); at.numbers[[i, j]] = at.numbers[[j, i]]; return "exchange two elements"
    if k == 17 and n > 1: i, j = choose(n), choose(n); at.positions[[i, j]] = at.positions[[j, i]]; return "exchange two positions"
    if k in (18, 19) and old:
        b = pick(old); del at[:]; at.extend(b); at.set_cell(b.cell); at.pbc = b.pbc; return "return to an earlier configuration"
    if k == 20 and at.cell.rank == 3: c = np.array(at.cell); c[choose(3), choose(3)] += sreal(0.1); at.set_cell(c, scale_atoms=chance(1, 2)); return "shear the cell"
    if k == 0 and n: i = choose(n); at.positions[i] += [sreal(0.2) for _ in range(3)]; return "move one atom in place"
    if k == 1 and n: at.set_positions(at.get_positions() + np.array([[sreal(0.05) for _ in range(3)] for _ in range(n)])); return "move all atoms"
    if k == 2 and at.cell.rank == 3: at.set_cell(at.cell * real(0.95, 1.1), scale_atoms=chance(1, 2)); return "change the cell"
    if k == 3: at.pbc = [bool(chance(1, 2)) and bool(at.cell.rank == 3) for _ in range(3)]; return "change periodicity"
    if k == 4 and n: at.numbers[choose(n)] = pick(m.Z); return "change an element"
    if k == 5:
        p = np.array([real(0, m.r_cut) for _ in range(3)])
        if far_enough(at.positions, p): at.append(ase.Atom(pick(m.Z), p))
        return "insert an atom"
    if k == 6 and n: del at[choose(n)]; return "delete an atom"
    if k == 7 and n > 1: i = choose(n); at[:] if False else None; p = np.roll(np.arange(n), 1 + choose(n - 1)); at.positions[:], at.numbers[:] = at.positions[p].copy(), at.numbers[p].copy(); return "reorder atoms"
    if k == 8 and n: at.positions[choose(n)] += np.array([3.2, 0, 0]) * m.r_cut; return "move an atom far away"
    if k == 9: at.translate([sreal(1.0) for _ in range(3)]); return "translate"
    if k == 10 and n: at.wrap() if at.cell.rank == 3 else None; return "wrap"
    if k == 11 and n: bad = [z for z in range(1, 90) if z not in m.Z]; at.numbers[choose(n)] = pick(bad); return "element the model does not know"
    if k == 12 and n and at.cell.rank == 3: at.set_cell(None); at.pbc = False; return "drop the cell"
    return "no edit"

def too_close(at):
    from common import pairs
    I, J, D = pairs(at.positions, np.asarray(at.cell), at.pbc, 0.45)
    return len(I) > 0
def neighbours_too_many(at, m):
    from common import pairs
    I, J, D = pairs(at.positions, np.asarray(at.cell), at.pbc, m.r_cut)
    return len(I) > max(400, 12 * len(at))

def judge(name, got, at, calc, m, nocell, RTOL):
    E, F, W = m.eval_atoms(at.numbers, at.positions, np.asarray(at.cell), at.pbc)
    if name in ("energy", "free_energy"): expect_close("calc:" + name, name, got, E.sum(), RTOL, 1.0)
    elif name == "energies": expect_close("calc:energies", name, got, E, RTOL, 1.0)
    elif name == "forces": expect_close("calc:forces", name, got, F, RTOL, 1.0)
    elif not nocell:
        # the synthetic models are not rotation invariant, so the virial is not symmetric; any symmetrisation is accepted
        s = W / abs(np.linalg.det(np.asarray(at.cell))); off = [(1, 2), (0, 2), (0, 1)]
        g = np.array(got, float)
        if g.shape == (3, 3): g = g[[0, 1, 2, 1, 0, 0], [0, 1, 2, 2, 2, 1]]
        g = g.reshape(-1); w = np.array([s[0, 0], s[1, 1], s[2, 2]] + [s[i] for i in off])
        if g.shape == w.shape:
            for k, (i, j) in enumerate(off): c = [s[i, j], s[j, i], (s[i, j] + s[j, i]) / 2]; w[3 + k] = min(c, key=lambda x: abs(x - g[3 + k]))
        expect_close("calc:stress", name, g, w, RTOL, 1e-2)
kept = []
def keep(values, what):
    """results that were handed out belong to the caller and must not change afterwards"""
    for v in values:
        if isinstance(v, np.ndarray): kept.append((v, v.copy(), what))
def check_kept():
    for v, c, what in kept:
        if not np.array_equal(v, c): fail("calc:result-changed-later", f"{what} of an earlier calculation changed afterwards")
def request(at, calc, m, arm):
    props = ["energy", "free_energy", "energies", "forces", "stress"]
    name = pick(props); api = choose(7); RTOL = calc.v_tol
    if api == 4 and chance(1, 3): calc.reset(); event("calc.reset")
    unknown = any(int(z) not in m.Z for z in at.numbers); nocell = at.cell.rank != 3
    state.update(lines=-1, hit=False, nl=False, begun=real_nl is None)
    if arm == 1: state["nl"] = real_nl is not None
    if arm == 2: state["lines"] = choose(24); sys.settrace(tracer)
    got = None; exc = None
    try:
        if api == 0 or at.calc is None or at.calc is not calc: got = calc.get_property(name, at)
        elif api == 1:
            got = {"energy": at.get_potential_energy, "free_energy": lambda: at.get_potential_energy(force_consistent=True), "energies": at.get_potential_energies, "forces": at.get_forces, "stress": at.get_stress}[name]()
        elif api == 2:
            calc.calculate(at, [name]); got = calc.results[name]
        elif api == 4:
            got = {"energy": calc.get_potential_energy, "free_energy": lambda a: calc.get_potential_energy(a, force_consistent=True), "energies": calc.get_potential_energies, "forces": calc.get_forces, "stress": calc.get_stress}[name](at)
        elif api == 5 and name == "stress": got = at.get_stress(voigt=False)
        elif api == 5: got = calc.get_property(name, at, allow_calculation=True)
        else:
            calc.get_property(pick(props[:4]), at); got = calc.get_property(name, at)
    except (Violation,): raise
    except BaseException as e: exc = e
    finally: sys.settrace(None)
    hit = state["hit"]; state.update(lines=-1, nl=False)
    if hit: fault("neighbour-list-failure" if arm == 1 else "interrupt-inside-calculate")
    note(f"request {name} (api {api}) for {at.get_chemical_formula() or 'nothing'} pbc={at.pbc.astype(int).tolist()}: {'raised ' + type(exc).__name__ if exc else 'answered'}" + (" [fault injected]" if hit else ""))
    if exc is not None:
        event("calc.raised")
        if hit: return
        if unknown: event("calc.unknown-element-refused"); return
        if name == "stress" and nocell: event("calc.stress-without-cell-refused"); return
        if got is None and isinstance(exc, (Interrupt,)): return
        fail("calc:unanswered", f"request for {name} of {len(at)} atoms raised {type(exc).__name__}: {exc}")
    event("calc.answered")
    if unknown: fail("calc:answered-unknown", f"{name} was returned for atoms the model cannot describe")
    judge(name, got, at, calc, m, nocell, RTOL)
    if chance(1, 8):       # another property of the same atoms, without naming them
        again = pick(props[:4] if nocell else props); event("calc.without-atoms")
        judge(again, calc.get_property(again), at, calc, m, nocell, RTOL)
    if chance(1, 4): keep([calc.results.get(k) for k in props], "the calculator's results"); keep([got], name) if api == 2 else None
    if isinstance(got, np.ndarray) and chance(1, 3) and api != 2: got += 17.0    # the caller may do what it likes with its result

def settle():
    if KOKKOS and ksim.ksim_violation(): v = ksim.ksim_violation().decode(); fail("kokkos:" + v.split(":")[0].split('"')[0].strip(), v)
def make_calc(m):
    if KOKKOS and chance(4, 5):
        single = chance(1, 3); c = symmetrix.Symmetrix(m.path, dtype="float32") if single else symmetrix.Symmetrix(m.path) if chance(1, 2) else symmetrix.Symmetrix(m.path, dtype="float64", use_kokkos=True)
        c.v_tol = 2e-4 if single else 1e-7; settle()
    else: c = symmetrix.Symmetrix(m.path, use_kokkos=False); c.v_tol = 1e-7
    c.v_model = m
    return c
def calc_history():
    if KOKKOS:
        core_module._kokkos_is_initialized() or core_module._init_kokkos()
        ksim.ksim_seed(1 + choose(1 << 24)); late = ksim.ksim_late()
    del kept[:]
    m = get_model(choose(60))
    calcs = [make_calc(m)]
    if chance(1, 3): calcs.append(make_calc(m if chance(1, 2) else get_model(choose(60))))
    ats = [draw_atoms(m) for _ in range(rng(1, 3))]; old = []
    for a in ats: a.calc = pick(calcs)
    for _ in range(rng(4, 18)):
        core.ctx.stats.steps += 1
        k = choose(len(ats)); at = ats[k]
        if chance(1, 2):
            before = at.copy(); how = edit(at, at.calc.v_model, old)
            if too_close(at) or neighbours_too_many(at, m): ats[k] = before; before.calc = at.calc; at = before; how = "edit undone"
            elif len(old) < 6: old.append(before)
            note("atoms %d: %s" % (k, how))
        if len(calcs) > 1 and chance(1, 8): at.calc = pick(calcs); note("atoms %d: other calculator" % k)
        arm = (1 if chance(1, 2) else 2) if chance(1, 5) else 0
        calc = at.calc if chance(4, 5) else pick(calcs)
        if neighbours_too_many(at, calc.v_model): continue
        request(at, calc, calc.v_model, arm); settle(); check_kept()
    if KOKKOS:
        if ksim.ksim_late() > late: fault("kernel-started-late", int(ksim.ksim_late() - late))
        at = before = calc = calcs = ats = old = None; settle(); ksim.ksim_seed(0)

if __name__ == "__main__": core.main({"calc_history": calc_history, "calc_history_kokkos": calc_history, "calc_history_kokkos_device": calc_history})
