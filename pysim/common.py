"""Reference model and real package for the Python harnesses."""
import ctypes, itertools, logging, os, sys
import numpy as np
logging.disable(logging.CRITICAL)
PKG = os.path.dirname(os.environ["V_PYMOD"]) + "/pkg"
sys.path.insert(0, PKG)
_l = ctypes.CDLL(os.environ["V_PYREF"])
_l.ref_model.restype = ctypes.c_void_p; _l.ref_model.argtypes = [ctypes.c_uint64] + [ctypes.c_int] * 5
_l.ref_json.restype = ctypes.c_char_p; _l.ref_json.argtypes = [ctypes.c_void_p]
_l.ref_rcut.restype = ctypes.c_double; _l.ref_rcut.argtypes = [ctypes.c_void_p]
_l.ref_nel.argtypes = [ctypes.c_void_p]; _l.ref_Z.argtypes = [ctypes.c_void_p, ctypes.c_int]; _l.ref_free.argtypes = [ctypes.c_void_p]
_ip, _dp = np.ctypeslib.ndpointer(np.int32, flags="C"), np.ctypeslib.ndpointer(np.float64, flags="C")
_l.ref_eval.argtypes = [ctypes.c_void_p, ctypes.c_int, _ip, _ip, ctypes.c_int, _ip, _ip, _dp, _dp, _dp, _dp]
_l.ref_eval.restype = None

class Model:
    def __init__(self, seed, nel=3, nch=3, lmax=2, Lmax=1, zbl=1):
        self.h = _l.ref_model(seed, nel, nch, lmax, Lmax, zbl)
        self.text = _l.ref_json(self.h).decode(); self.r_cut = _l.ref_rcut(self.h); self.Z = [_l.ref_Z(self.h, i) for i in range(_l.ref_nel(self.h))]
    def eval_lists(self, types, nn, idx, ntypes, xyz, r):
        a = lambda x, t: np.ascontiguousarray(x, dtype=t).reshape(-1)
        E = np.zeros(len(types)); F = np.zeros(3 * len(r))
        _l.ref_eval(self.h, len(types), a(types, np.int32), a(nn, np.int32), len(r), a(idx, np.int32), a(ntypes, np.int32), a(xyz, float), a(r, float), E, F)
        return E, F.reshape(-1, 3)
    def eval_atoms(self, numbers, pos, cell, pbc):
        """energies, forces, virial tensor (dE/dstrain) of an atomic structure, by brute force"""
        types = [self.Z.index(int(z)) for z in numbers]
        n = len(types); pos = np.asarray(pos, float).reshape(-1, 3)
        I, J, D = pairs(pos, np.asarray(cell, float), pbc, self.r_cut)
        nn = np.bincount(I, minlength=n) if n else np.zeros(0, int)
        E, F = self.eval_lists(types, nn, J, [types[j] for j in J], D, np.sqrt((D ** 2).sum(1)) if len(D) else [])
        f = np.zeros((n, 3)); np.add.at(f, J, F); np.add.at(f, I, -F)
        return E, f, -(F.T @ D.reshape(-1, 3))

_memo = {}
def pairs(pos, cell, pbc, rc):
    """all ordered pairs within rc; sorted by first atom"""
    n = len(pos)
    if n == 0: return np.zeros(0, int), np.zeros(0, int), np.zeros((0, 3))
    key = (pos.tobytes(), np.asarray(cell, float).tobytes(), bytes(bool(p) for p in pbc), rc)
    if key in _memo: return _memo[key]
    reps = [[0], [0], [0]]
    if any(pbc):
        from ase.geometry import complete_cell
        full = complete_cell(cell); V = abs(np.linalg.det(full)); s = np.linalg.solve(full.T, pos.T).T
        for k in range(3):
            if pbc[k]:
                hgt = V / np.linalg.norm(np.cross(full[(k + 1) % 3], full[(k + 2) % 3])); m = int(np.ceil(rc / hgt + np.ptp(s[:, k]))) + 1
                reps[k] = range(-m, m + 1)
    S = np.array(list(itertools.product(*reps)), float) @ cell if any(pbc) else np.zeros((1, 3))
    d = S[:, None, None, :] + (pos[None, :, :] - pos[:, None, :])[None]
    ok = np.einsum("sijk,sijk->sij", d, d) < rc * rc
    z = int(np.flatnonzero((S == 0).all(1))[0]) if not any(pbc) else next(q for q, t in enumerate(itertools.product(*reps)) if t == (0, 0, 0))
    ok[z][np.arange(n), np.arange(n)] = False
    q, I, J = np.nonzero(ok); o = np.argsort(I, kind="stable"); q, I, J = q[o], I[o], J[o]
    _memo.clear() if len(_memo) > 8 else None; _memo[key] = I, J, d[q, I, J]
    return _memo[key]
