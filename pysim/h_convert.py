"""Calculators created from models that need conversion first, on faulty storage."""
import gc, json, os, shutil, sys, types
import numpy as np
import core, storage as S
from core import choose, rng, chance, real, sreal, pick, event, note, fail, expect_close, Violation
from common import Model
BASE = os.path.abspath("cv%d" % os.getpid())
TMP, MODELS = BASE + "/tmp", BASE + "/models"
os.environ["TMPDIR"] = TMP
import tempfile
import symmetrix
from ase import Atoms

SIZES = [(1, 1, 0, 0), (1, 1, 1, 0), (2, 1, 1, 0), (2, 2, 1, 1), (3, 3, 2, 1), (4, 4, 2, 1)]
cache = {}
def get_model(size, seed):
    k = (size, seed)
    if k not in cache:
        if len(cache) > 400: cache.clear()
        cache[k] = Model(seed, *SIZES[size])
    return cache[k]

class Names:
    """temporary file names come from the seed too, and sometimes collide"""
    def __iter__(self): return self
    def __next__(self): return "%x" % choose(6) if chance(1, 4) else "%06x" % choose(1 << 24)
tempfile._name_sequence = Names(); tempfile.tempdir = TMP
registry = {}      # torch file name -> (size, seed)
asked = []
def resolve(path, kw):
    """the model that extraction produces for these arguments: every argument matters"""
    size, seed = registry[path]
    tag = json.dumps([kw.get("species"), kw.get("head"), kw.get("num_spline_points", 256)])
    return get_model(size, seed + core.hash_str(tag) % 7)
def extract_mace_data(model, species, head=None, num_spline_points=256):
    path = str(model)
    if path not in registry: raise ValueError("not a torch file: " + path)
    asked.append(path)
    return json.loads(resolve(path, dict(species=species, head=head, num_spline_points=num_spline_points)).text)
stub = types.ModuleType("symmetrix.extract_mace_data"); stub.extract_mace_data = extract_mace_data
sys.modules["symmetrix.extract_mace_data"] = stub; symmetrix.extract_mace_data = stub

def probe(calc, m, what):
    n = rng(2, 4)
    pos = np.array([[0.9 * i + real(0, .3), sreal(.5), sreal(.5)] for i in range(n)]); Z = [pick(m.Z) for _ in range(n)]
    at = Atoms(numbers=Z, positions=pos, cell=[9, 9, 9], pbc=False)
    if calc.cutoff != m.r_cut: fail("convert:cutoff", f"{what}: cut-off {calc.cutoff}, the converted model has {m.r_cut}")
    if list(calc.evaluator.atomic_numbers) != list(m.Z): fail("convert:elements", f"{what}: elements {list(calc.evaluator.atomic_numbers)}, the converted model has {m.Z}")
    E, F, W = m.eval_atoms(Z, pos, np.asarray(at.cell), at.pbc)
    expect_close("convert:energies", what + " energies", calc.get_property("energies", at), E, 1e-7, 1.0)
    expect_close("convert:forces", what + " forces", calc.get_property("forces", at), F, 1e-7, 1.0)

def new_file(i):
    kind = choose(6); path = f"{MODELS}/f{i}.model"; size, seed = choose(len(SIZES)), choose(3) * 7; registry.pop(path, None)
    m = get_model(size, seed)
    if kind <= 3: registry[path] = (size, seed); open(path, "wb").write(b"PK\x03\x04 torch archive " + bytes(choose(256) for _ in range(40)) + b"\0" * 200); k = "torch"
    elif kind == 4: open(path, "w").write(m.text); k = "json"
    else: open(path, "w").write(m.text[:choose(len(m.text.rstrip()))]); k = "truncated json"
    note(f"file {i}: {k} ({len(m.text)} bytes)")
    return dict(path=path, kind=k, size=size, seed=seed)
def draw_kw():
    kw = {}
    kw["species"] = pick([[1, 6], ["H", "O"], [8], None, []])
    if chance(1, 4): kw["head"] = pick(["a", "b"])
    if chance(1, 4): kw["num_spline_points"] = pick([64, 256, 300])
    return kw
def expected(f, kw): return get_model(f["size"], f["seed"]) if f["kind"] == "json" else resolve(f["path"], kw) if f["kind"] == "torch" else None
def create(f, kw): return symmetrix.Symmetrix(f["path"], use_kokkos=False, **kw)

def arm(level):
    S.clear(BASE)
    r = choose(9)
    if r <= 1: d = "no fault"
    elif r == 2: n = choose(16); S.at(n, S.ERRNO, pick(S.ERRNOS)); d = f"error at call {n}"
    elif r == 3: S.vf.budget = choose(1 << 15) if chance(1, 2) else choose(1 << 19); d = f"disk full after {S.vf.budget} bytes"
    elif r == 4:
        for n in range(24): S.at(n, pick([S.PASS, S.SHORT, S.EINTR]), choose(100000))
        d = "short and interrupted transfers"
    elif r == 5: n = choose(12); S.at(n, S.SHORT, choose(100000)); d = f"short transfer at call {n}"
    elif r == 6: n = choose(12); S.at(n, S.EINTR); d = f"interrupted call {n}"
    elif r == 7: n = choose(10); S.at(n, S.SHORT, choose(100000)); S.at(n + 1 + choose(3), S.ERRNO, pick(S.ERRNOS)); d = f"short transfer at call {n}, then an error"
    else:
        for n in sorted({choose(14) for _ in range(rng(1, 2))}): S.at(n, S.CALLBACK)
        if chance(1, 2): S.at(choose(12), S.SHORT, choose(100000))
        d = "another calculator is created meanwhile"
    return d

def convert_history():
    shutil.rmtree(BASE, ignore_errors=True); os.makedirs(TMP); os.makedirs(MODELS); registry.clear()
    try:
        files = [new_file(i) for i in range(rng(1, 3))]; alive = []; nested = []
        def cb(n):
            try:
                g = pick([f for f in files if f["kind"] != "truncated json"] or [None])
                if g is None: return
                kw = draw_kw(); nested.append((create(g, kw), expected(g, kw), None))
            except BaseException as e: nested.append((None, None, e))
        keep = S.CB(cb); S.vf.callback = keep
        for step in range(rng(2, 6)):
            core.ctx.stats.steps += 1
            if step and chance(1, 3): i = choose(len(files)); files[i] = new_file(i)
            f = pick(files); kw = draw_kw(); want = expected(f, kw); how = arm(0); nested.clear()
            calc = exc = None
            S.vf.on = 1
            try: calc = create(f, kw)
            except Violation: raise
            except Exception as e: exc = (type(e).__name__, str(e)[:200])
            finally: S.vf.on = 0
            c = S.counts(); S.report(c); hard = any(k in c for k in S.HARD)
            note(f"create from {f['kind']} {kw} with {how}: {'raised ' + exc[0] if exc else 'created'} (faults {({S.NAMES[k]: v for k, v in c.items()})}, {S.vf.ops} calls)")
            for x, w, e in nested:
                event("convert.nested")
                if e is not None: fail("convert:nested-failed", f"a calculator created while another one was being created failed: {type(e).__name__}: {e}")
                probe(x, w, "calculator created meanwhile"); alive.append((x, w))
            if exc is not None:
                event("convert.refused")
                if not hard and want is not None: fail("convert:refused-without-error", f"creation from a {f['kind']} file failed without any storage error ({how}): {exc[0]}: {exc[1]}")
            else:
                event("convert.created")
                if want is None: fail("convert:accepted-garbage", "a calculator was made from a truncated model")
                probe(calc, want, f"calculator from {f['kind']} file"); alive.append((calc, want))
            del calc
            left = sorted(os.listdir(TMP))
            if left: gc.collect(); left = sorted(os.listdir(TMP))      # the exception's frames kept the temporary file object alive
            if left: fail("convert:left-behind", f"temporary files left after creation {'failed' if exc else 'succeeded'}: {left}")
            if alive and chance(1, 2): x, w = pick(alive); probe(x, w, "earlier calculator")
            core.ctx.mix(json.dumps([S.vf.ops, exc is None, sorted(c.items())]).encode())
    finally:
        S.vf.on = 0; S.vf.callback = S.CB(0); shutil.rmtree(BASE, ignore_errors=True)

if __name__ == "__main__": gc.freeze(); core.main({"convert_history": convert_history})
