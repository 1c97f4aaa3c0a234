"""Python side of the storage simulator (vfault.c, preloaded)."""
import ctypes, errno, os
from core import choose, rng, chance, pick, fault, note
MAXOPS = 4096
CB = ctypes.CFUNCTYPE(None, ctypes.c_int)
class Plan(ctypes.Structure):
    _fields_ = [("on", ctypes.c_int), ("prefix", ctypes.c_char * 512), ("nops", ctypes.c_int), ("kind", ctypes.c_ubyte * MAXOPS), ("arg", ctypes.c_int * MAXOPS), ("budget", ctypes.c_longlong),
                ("at", ctypes.c_int), ("count", ctypes.c_longlong * 16), ("ops", ctypes.c_int), ("written", ctypes.c_longlong), ("callback", CB)]
PASS, SHORT, EINTR, ERRNO, KILL_BEFORE, KILL_AFTER, TORN_KILL, CALLBACK, NOSPC, EINTR_HARD = range(10)
NAMES = {SHORT: "short-transfer", EINTR: "EINTR", ERRNO: "syscall-error", KILL_BEFORE: "kill-before-syscall", KILL_AFTER: "kill-after-syscall", TORN_KILL: "kill-mid-write", CALLBACK: "interleaved-process", NOSPC: "disk-full", EINTR_HARD: "EINTR-at-open"}
HARD = (ERRNO, NOSPC, EINTR_HARD)
_l = ctypes.CDLL(os.environ["LD_PRELOAD"]); _l.vf_plan.restype = ctypes.POINTER(Plan)
vf = _l.vf_plan().contents
ERRNOS = [errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EACCES, errno.EMFILE, errno.ENOMEM, errno.EFBIG]
def clear(prefix):
    vf.on = 0; vf.prefix = prefix.encode(); vf.nops = 0; vf.budget = -1; vf.at = 0; vf.ops = 0; vf.written = 0
    ctypes.memset(vf.kind, 0, MAXOPS)
    for i in range(16): vf.count[i] = 0
def at(n, kind, arg=0):
    if n >= MAXOPS: return
    vf.kind[n] = kind; vf.arg[n] = arg; vf.nops = max(vf.nops, n + 1)
def counts(): return {k: int(vf.count[k]) for k in NAMES if vf.count[k]}
def report(c):
    for k, n in c.items(): fault(NAMES[k], n)
