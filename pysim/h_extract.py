"""The extraction command killed or starved at any point of writing its output."""
import gc, json, os, shutil, signal, sys, types
import numpy as np
import core, storage as S
from core import choose, rng, chance, real, sreal, pick, event, note, fault, fail, expect_close, Violation
from common import Model
import symmetrix
BASE = os.path.abspath("ex%d" % os.getpid()); OUT = BASE + "/out"
SIZES = [(1, 1, 0, 0), (2, 1, 1, 0), (2, 2, 1, 1), (3, 2, 2, 1)]
cache = {}
def get_model(size, seed):
    k = (size, seed)
    if k not in cache: cache[k] = Model(seed, *SIZES[size])
    return cache[k]
registry = {}
def resolve(path, species, head, points):
    size, seed = registry[path]
    return get_model(size, seed + core.hash_str(json.dumps([[str(s) for s in species or []], head, points])) % 3)
def extract_mace_data(model, species, head=None, num_spline_points=256):
    if str(model) not in registry: raise FileNotFoundError(str(model))
    return json.loads(resolve(str(model), species, head, num_spline_points).text)
stub = types.ModuleType("symmetrix.extract_mace_data"); stub.extract_mace_data = extract_mace_data
sys.modules["symmetrix.extract_mace_data"] = stub; symmetrix.extract_mace_data = stub
from symmetrix.cli import extract_mace
import argparse, pathlib

def body(argv):
    sys.argv = ["symmetrix_extract_mace"] + argv
    try: extract_mace.main(); return 0
    except SystemExit as e: return e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except BaseException: return 1
def command(argv):
    """run the command as a process of its own; (exit status, fault counts, calls made)"""
    r, w = os.pipe(); sys.stdout.flush(); sys.stderr.flush(); pid = os.fork()
    if pid == 0:
        signal.alarm(60); os.close(r); os.chdir(OUT)
        dn = os.open("/dev/null", os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
        S.vf.on = 1; rc = body(argv); gc.collect(); S.vf.on = 0
        os.write(w, json.dumps([S.counts(), S.vf.ops]).encode()); os._exit(rc & 255)
    os.close(w); b = b""
    while True:
        x = os.read(r, 65536)
        if not x: break
        b += x
    os.close(r); _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st): fail("machinery:child", f"the command died from signal {os.WTERMSIG(st)}")
    rc = os.WEXITSTATUS(st)
    if b: c, n = json.loads(b); return rc, {int(k): v for k, v in c.items()}, n
    return rc, {}, None

def load(path):
    try: return symmetrix.MACE(path)
    except Exception: return None
def is_model(ev, m, what=None):
    """does the evaluator compute model m? with `what`, complain if not"""
    n = rng(2, 4); types_ = [choose(len(m.Z)) for _ in range(n)]; pos = np.array([[0.9 * i + real(0, .3), sreal(.5), sreal(.5)] for i in range(n)])
    nn, idx, nt, xyz, r = [], [], [], [], []
    for i in range(n):
        c = 0
        for j in range(n):
            d = pos[j] - pos[i]; dist = float(np.sqrt(d @ d))
            if i != j and dist < m.r_cut: c += 1; idx.append(j); nt.append(types_[j]); xyz += list(d); r.append(dist)
        nn.append(c)
    if ev.r_cut != m.r_cut or list(ev.atomic_numbers) != list(m.Z):
        if what: fail("extract:wrong-model", f"{what}: cut-off or elements differ from the extracted model")
        return False
    E, F = m.eval_lists(types_, nn, idx, nt, xyz, r)
    ev.compute_node_energies_forces(n, np.array(types_, np.int32), np.array(nn, np.int32), np.array(idx, np.int32), np.array(nt, np.int32), np.array(xyz, float), np.array(r, float))
    e, f = np.asarray(ev.node_energies), np.asarray(ev.node_forces).reshape(-1, 3)
    if what: expect_close("extract:energies", what + " energies", e, E, 1e-7, 1.0); expect_close("extract:forces", what + " forces", f, F, 1e-7, 1.0); return True
    return e.shape == E.shape and np.allclose(e, E, rtol=1e-7, atol=1e-7 * max(1, abs(E).max()))

def arm(ncalls):
    S.clear(BASE); r = choose(10); n = choose(ncalls) if chance(4, 5) else choose(4 * ncalls)
    if r <= 1: return "no fault"
    if r == 2: S.at(n, S.KILL_BEFORE); return f"kill before call {n}"
    if r == 3: S.at(n, S.KILL_AFTER); return f"kill after call {n}"
    if r == 4: S.at(n, S.TORN_KILL, choose(100000)); return f"kill in the middle of call {n}"
    if r == 5: S.at(n, S.ERRNO, pick(S.ERRNOS)); return f"error at call {n}"
    if r == 6: S.vf.budget = choose(1 << 13) if chance(1, 3) else choose(1 << 17); return f"disk full after {S.vf.budget} bytes"
    if r == 7:
        for k in range(rng(4, 40)): S.at(k, pick([S.PASS, S.SHORT, S.EINTR]) if k else S.PASS, choose(100000))
        return "short and interrupted writes"
    if r == 8:
        k = choose(max(1, ncalls - 1)); S.at(k, S.SHORT, choose(100000)); S.at(k + 1, pick([S.ERRNO, S.KILL_BEFORE, S.TORN_KILL]), pick(S.ERRNOS)); return f"short write at call {k}, then the end"
    S.at(n, S.SHORT, choose(100000)); S.vf.budget = choose(1 << 17); return f"short write at call {n} and a nearly full disk"

def extract_history():
    shutil.rmtree(BASE, ignore_errors=True); os.makedirs(OUT); registry.clear()
    try:
        for i in range(2): registry[f"{BASE}/net{i}.model"] = (choose(len(SIZES)), choose(4) * 3)
        state = {}     # output path -> bytes known to be there, or None when a failed run may have left anything refusable
        ncalls = 14
        for step in range(rng(2, 6)):
            core.ctx.stats.steps += 1
            mp = pick(sorted(registry)); argv = ["--model", mp]; species = []; head = None
            if chance(1, 2):
                if chance(1, 2): species = pick([["1", "8"], ["6"]]); argv += ["-Z"] + species
                else: species = pick([["H", "O"], ["C"]]); argv += ["-s"] + species
            if chance(1, 4): head = pick(["a", "b"]); argv += ["--head", head]
            named = chance(5, 6) or not species
            if named: out = OUT + "/" + pick(["a.json", "b.json"]); argv += ["-o", os.path.basename(out) if chance(1, 2) else out]
            before = {f: open(OUT + "/" + f, "rb").read() for f in os.listdir(OUT)}
            want = resolve(mp, species, head, 256); how = arm(ncalls)
            rc, c, n = command(argv)
            if n: ncalls = max(4, n)
            killed = n is None
            if killed: fault("killed")
            S.report(c); hard = killed or any(k in c for k in S.HARD)
            note(f"extract {argv[2:]} with {how}: {'killed' if killed else 'exit %d' % rc} (faults {({S.NAMES[k]: v for k, v in c.items()})}, {n} calls)")
            after = {f: open(OUT + "/" + f, "rb").read() for f in os.listdir(OUT)}
            if not named:
                new = [f for f in after if after[f] != before.get(f)]
                out = OUT + "/" + new[0] if len(new) == 1 else None
            if rc == 0 and not killed:
                event("extract.success")
                if out is None or not os.path.exists(out): fail("extract:no-output", f"exit status 0 but no output file ({how})") if named else None
                if out and os.path.exists(out):
                    ev = load(out)
                    if ev is None: fail("extract:success-unloadable", f"exit status 0 but the output is refused ({how})")
                    is_model(ev, want, f"output of a successful extraction ({how})")
            else:
                event("extract.failed")
                if not hard: fail("extract:failed-without-error", f"exit status {rc} without any storage error ({how})")
                if out and os.path.exists(out):
                    f = os.path.basename(out)
                    if after[f] == before.get(f): event("extract.previous-kept")
                    else:
                        ev = load(out)
                        if ev is None: event("extract.partial-refused")
                        else: is_model(ev, want, f"loadable output of a failed extraction ({how})"); event("extract.complete-despite-failure")
            core.ctx.mix(json.dumps([rc, n, sorted(c.items()), sorted((f, len(b)) for f, b in after.items())]).encode())
    finally: S.vf.on = 0; shutil.rmtree(BASE, ignore_errors=True)

if __name__ == "__main__": gc.freeze(); core.main({"extract_history": extract_history})
