"""Simulation core for the Python harnesses: the same choice-list discipline and command
line as sim/main.cpp (run, one, replay, shrink)."""
import json, mmap, os, random, signal, struct, sys, time

class Violation(Exception):
    def __init__(self, cls, msg): super().__init__(cls + ": " + msg); self.cls, self.msg = cls, msg
def fail(cls, msg): raise Violation(cls, msg)

class Stats:
    def __init__(self): self.counters, self.faults, self.distinct, self.steps, self.evaluations = {}, {}, set(), 0, 0

class Ctx:
    def __init__(self, stats, seed=None, choices=None, tracing=False, stream=None):
        self.stats, self.choices, self.tracing, self.stream = stats, choices, tracing, stream
        self.rng = random.Random(seed) if choices is None else None
        self.used, self.hash, self.trace = [], 1469598103934665603, []
    def choose(self, n):
        if n <= 1: return 0
        v = self.rng.randrange(n) if self.choices is None else (self.choices[len(self.used)] % n if len(self.used) < len(self.choices) else 0)
        self.used.append(v)
        if self.stream is not None:
            struct.pack_into("<I", self.stream, 4 * len(self.used), v); struct.pack_into("<I", self.stream, 0, len(self.used))
        if len(self.used) > 400000: fail("machinery:choice-budget", "too many choices")
        return v
    def mix(self, b):
        h = self.hash
        for i in range(0, len(b), 8): h = ((h ^ int.from_bytes(b[i:i + 8], "little")) * 1099511628211) & 0xffffffffffffffff; h ^= h >> 29
        self.hash = h

ctx = None
def choose(n): return ctx.choose(n)
def rng(lo, hi): return lo + ctx.choose(hi - lo + 1)
def chance(a, b): return ctx.choose(b) >= b - a
def real(lo, hi): return lo + (hi - lo) * ctx.choose(1 << 20) / (1 << 20)
def sreal(a):
    v = ctx.choose(1 << 20); u = 1 / 16 + 15 / 16 * (v >> 1) / (1 << 19)
    return -a * u if v & 1 else a * u
def pick(seq): return seq[ctx.choose(len(seq))]
def event(k, n=1): ctx.stats.counters[k] = ctx.stats.counters.get(k, 0) + n
def fault(k, n=1): ctx.stats.faults[k] = ctx.stats.faults.get(k, 0) + n; ctx.mix(k.encode())
def note(s):
    if ctx.tracing: ctx.trace.append(s)
def expect_close(cls, what, got, want, rtol, minscale=1e-3):
    import numpy as np
    g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    ctx.stats.evaluations += max(1, w.size)
    if g.shape != w.shape: fail(cls + ":shape", f"{what}: shape {g.shape}, expected {w.shape}")
    ctx.mix(np.ascontiguousarray(g).tobytes())
    if w.size == 0: return
    scale = max(minscale, float(np.max(np.abs(w))))
    bad = ~(np.abs(g - w) <= rtol * scale)
    if bad.any():
        k = tuple(int(x) for x in np.argwhere(bad)[0]) if w.ndim else ()
        fail(cls, f"{what}{list(k)}: got {float(g[k]):.12g} expected {float(w[k]):.12g} (scale {scale:.6g})")

def run_one(h, stats, seed=None, choices=None, tracing=False, stream=None):
    global ctx
    c = ctx = Ctx(stats, seed, choices, tracing, stream)
    o = dict(violated=False, cls="", msg="")
    try: h()
    except Violation as v: o.update(violated=True, cls=v.cls, msg=v.msg)
    except Exception as e:
        import traceback
        o.update(violated=True, cls="unexpected-exception:" + type(e).__name__, msg=(str(e) + " | " + traceback.format_exc().strip().replace("\n", " / "))[-1200:])
    c.mix(o["cls"].encode())
    o.update(hash=c.hash, used=c.used, trace=c.trace)
    return o

def _child(f, timeout):
    """run f in a forked child; its result (json) or a crash outcome"""
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        os.close(r)
        dn = os.open("/dev/null", os.O_WRONLY); os.dup2(dn, 2); os.dup2(dn, 1)
        signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.alarm(timeout)
        d = json.dumps(f()).encode(); n = 0
        while n < len(d): n += os.write(w, d[n:])
        os._exit(0)
    os.close(w); buf = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b: break
        buf += b
    os.close(r); _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0: return json.loads(buf)
    cls = "hang" if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM else f"crash:signal{os.WTERMSIG(st)}" if os.WIFSIGNALED(st) else "hang" if os.WEXITSTATUS(st) == 124 else f"crash:exit{os.WEXITSTATUS(st)}"
    return dict(violated=True, cls=cls, msg=f"the process died ({cls})", hash=hash_str(cls), used=None, trace=[])
def hash_str(s):
    h = 1469598103934665603
    for b in s.encode(): h = ((h ^ b) * 1099511628211) & 0xffffffffffffffff
    return h
def run_forked(h, choices, tracing=False, timeout=60):
    o = _child(lambda: run_one(h, Stats(), choices=choices, tracing=tracing), timeout)
    if o["used"] is None: o["used"] = list(choices)
    return o
def choices_of_seed(h, seed):
    m = mmap.mmap(-1, 4 * 400010)
    pid = os.fork()
    if pid == 0:
        dn = os.open("/dev/null", os.O_WRONLY); os.dup2(dn, 2); os.dup2(dn, 1)
        signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.alarm(40)
        run_one(h, Stats(), seed=seed, stream=m); os._exit(0)
    os.waitpid(pid, 0)
    n = struct.unpack_from("<I", m, 0)[0]
    return list(struct.unpack_from(f"<{n}I", m, 4))
def out(o):
    print(json.dumps(dict(violated=o["violated"], **{"class": o["cls"]}, message=o["msg"], hash=f"{o['hash']:016x}", schedule_hash="", num_choices=len(o["used"]), choices=o["used"], trace=o["trace"][:400])))
    sys.stdout.flush()

def shrink(h, best, cls, seconds):
    t0 = time.time(); left = lambda: seconds - (time.time() - t0)
    def attempt(c):
        o = run_forked(h, c, timeout=6 if cls == "hang" else 30)
        return o if o["violated"] and o["cls"] == cls else None
    cur = attempt(best)
    if not cur: return run_forked(h, best, True)
    def accept(c):
        nonlocal best
        o = attempt(c)
        if o: best = o["used"] if o["used"] and len(o["used"]) <= len(c) else c; return True
        return False
    progress = True
    while progress and left() > 0:
        progress = False
        k = len(best) // 2
        while k >= 1 and left() > 0:
            while len(best) > k and left() > 0 and accept(best[:-k]): progress = True
            k //= 2
        k = max(len(best) // 4, 1)
        while k >= 1 and left() > 0:
            i = 0
            while i + k <= len(best) and left() > 0:
                if accept(best[:i] + best[i + k:]): progress = True
                else: i += k
            k //= 2
        k = max(len(best) // 4, 1)
        while k >= 1 and left() > 0:
            i = 0
            while i < len(best) and left() > 0:
                if any(best[i:i + k]) and accept(best[:i] + [0] * len(best[i:i + k]) + best[i + k:]): progress = True
                i += k
            k //= 2
    fin = run_forked(h, best, True); fin["used"] = best
    return fin

def main(harnesses):
    # NAME_fresh: every run in a process of its own, so that what happens once per process (first use) is explored too
    cmd, name = sys.argv[1], sys.argv[2]; fresh = name.endswith("_fresh"); h = harnesses[name[:-6] if fresh else name]
    def run(stats, seed, tracing=False):
        if not fresh: return run_one(h, stats, seed=seed, tracing=tracing)
        def body():
            t = Stats(); o = run_one(h, t, seed=seed, tracing=tracing); o["used"] = []; o["st"] = [t.evaluations, t.steps, t.counters, t.faults]; return o
        o = _child(body, 50); t = o.pop("st", [0, 0, {}, {}]); stats.evaluations += t[0]; stats.steps += t[1]
        for a, b in ((stats.counters, t[2]), (stats.faults, t[3])):
            for k, v in b.items(): a[k] = a.get(k, 0) + v
        return o
    if cmd == "run":
        seed, count, stride, secs, pgf = int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), float(sys.argv[6]), sys.argv[7]
        open(pgf, "wb").write(b"\0" * 4096); f = open(pgf, "r+b"); pg = mmap.mmap(f.fileno(), 4096)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)   # a Python handler would not run while extension code loops
        t0 = time.time(); st = Stats(); done = twice = mism = 0; samples = []; bad = None; batch = 1469598103934665603
        for i in range(count):
            if time.time() - t0 > secs: break
            struct.pack_into("<QQ", pg, 0, seed, 1); signal.alarm(60)
            o = run(st, seed, i < 2)
            if i < 2: samples += [f"seed {seed}: {t}" for t in o["trace"][:12]]
            st.distinct.add(o["hash"]); batch = ((batch ^ o["hash"]) * 1099511628211) & 0xffffffffffffffff; done += 1
            if o["violated"]: bad = (seed, o); break
            if i % 53 == 0:
                o2 = run(Stats(), seed); twice += 1; mism += o2["hash"] != o["hash"]
            seed += stride
        signal.alarm(0)
        print(json.dumps(dict(runs=done, wall_s=time.time() - t0, evaluations=st.evaluations, steps=st.steps, distinct=len(st.distinct), states=0, rerun=twice, rerun_mismatch=mism,
            batch_hash=f"{batch:016x}", found=bad is not None, seed=bad[0] if bad else 0, **{"class": bad[1]["cls"] if bad else ""}, message=bad[1]["msg"] if bad else "", hash=f"{bad[1]['hash']:016x}" if bad else "",
            counters=st.counters, faults=st.faults, samples=samples)))
        sys.stdout.flush(); struct.pack_into("<QQ", pg, 0, seed, 0); os._exit(0)
    if cmd == "one":
        c = choices_of_seed(h, int(sys.argv[3])); o = run_forked(h, c, True, 40)
        if o["cls"].startswith("crash") or o["cls"] == "hang": o["used"] = c
        out(o); os._exit(1 if o["violated"] else 0)
    if cmd == "replay":
        o = run_forked(h, json.load(open(sys.argv[3]))["choices"], True, 40); out(o); os._exit(1 if o["violated"] else 0)
    if cmd == "shrink":
        o = shrink(h, json.load(open(sys.argv[3]))["choices"], sys.argv[4], float(sys.argv[5])); out(o); os._exit(1 if o["violated"] else 0)
    sys.exit(2)
