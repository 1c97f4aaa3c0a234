#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  - seeded simulation of one property.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict."""
import json, os, subprocess, sys, time, shutil, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
from props import PROPS

VERIF = B.VERIF
ENV = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MALLOC_ARENA_MAX="1", LC_ALL="C.UTF-8")
WORKERS = int(os.environ.get("VERIF_JOBS", "8"))

def command(h):
    """command prefix of a harness"""
    if h["type"] == "bin": return [B.build(h["target"], KEY)]
    if h["type"] == "py":
        env = [f"{k}={B.build(t, KEY)}" for k, t in h.get("needs", {}).items()]
        return ["/usr/bin/env"] + env + ["/usr/bin/python3", VERIF + "/" + h["script"]]

def call(cmd, timeout=600):
    try: r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=ENV, timeout=timeout, cwd=SCRATCH)
    except subprocess.TimeoutExpired: return None, None, subprocess.CompletedProcess(cmd, 124, "", "timed out")
    return r.returncode, parse(r.stdout), r

def parse(out):
    """a worker's result; wild writes of the code under test can spoil the sample texts it carries"""
    line = out.strip().splitlines()[-1] if out.strip() else ""
    for s in (line, out.split(', "samples": [')[0].strip().split("\n")[-1] + ', "samples": []}'):
        try: return json.loads(s, strict=False)
        except Exception: pass
    return None

def load_known(prop):
    out = []
    p = VERIF + "/known-findings.json"
    if os.path.exists(p):
        for e in json.load(open(p, encoding="utf-8"))["findings"]:
            if e.get("status") == "known" and e["property"] == prop: out.append(e)
    return out

def known_env(known):
    """what the harnesses recognise as a listed finding: lines harness|class|text in the message"""
    return "\n".join(f"{e['harness']}|{e['class']}|{e['match']}" for e in known)

def main():
    global KEY, SCRATCH
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[prop]
    t0 = time.time()
    KEY = B.source_key()
    SCRATCH = tempfile.mkdtemp(prefix="vsim-")
    try: return run(prop, P, tier, seed, t0)
    finally: shutil.rmtree(SCRATCH, ignore_errors=True)

def run(prop, P, tier, seed, t0):
    agg = dict(runs=0, evaluations=0, steps=0, distinct=0, states=0, rerun=0, rerun_mismatch=0)
    counters, faults, samples, harnesses = {}, {}, [], []
    violation = None
    knowns_hit = []
    known = load_known(prop)
    ENV["V_KNOWN"] = known_env(known)
    # build everything the check needs at once
    names = []
    for h in P["harnesses"]:
        for t in ([h["target"]] if h["type"] == "bin" else h.get("needs", {}).values()):
            if t not in names: names.append(t)
    tb = time.time()
    with cf.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(B.build, t, KEY) for t in names]:
            try: f.result()
            except B.BuildError as e:
                print(f"no verdict for {prop}: {e}", file=sys.stderr); return 2
    build_s = time.time() - tb
    for h in P["harnesses"]:
        cmd = command(h)
        runs = h[tier]["runs"]; secs = h[tier]["seconds"]
        base = seed * 100000000
        procs = []
        ts = time.time()
        for w in range(WORKERS):
            n = (runs + WORKERS - 1 - w) // WORKERS
            if n <= 0: continue
            pg = f"{SCRATCH}/{h['name']}.{w}.pg"
            args = ["run", h["name"], str(base + w), str(n), str(WORKERS), str(secs), pg]
            e = open(f"{SCRATCH}/{h['name']}.{w}.err", "w+", errors="replace")
            o = open(f"{SCRATCH}/{h['name']}.{w}.out", "w+", errors="replace")
            procs.append((w, args, pg, o, e, subprocess.Popen(cmd + args, stdout=o, stderr=e, env=ENV, cwd=SCRATCH)))
        results = []
        # the first worker to fail ends the search
        while any(p.poll() is None for *_, p in procs):
            for w, args, pg, o, e, p in procs:
                if p.poll() is not None:
                    o.seek(0)
                    bad = (parse(o.read()) or {"found": True})["found"]
                    if bad:
                        time.sleep(0.3)
                        for *_, q in procs:
                            if q.poll() is None: q.terminate(); q.stopped = True
            time.sleep(0.05)
        for w, args, pg, o, e, p in procs:
            p.wait(); o.seek(0)
            if getattr(p, "stopped", False): continue
            o.seek(0); out = o.read(); e.seek(0); err = e.read()
            r = parse(out)
            results.append((w, args, pg, p.returncode, r, err))
        wall = time.time() - ts
        hs = dict(name=h["name"], runs=0, wall_s=round(wall, 2))
        for w, args, pg, rc, r, err in results:
            if r is None:      # the worker died inside a simulated run
                page = open(pg, "rb").read(16)
                s, live = int.from_bytes(page[:8], "little"), int.from_bytes(page[8:16], "little")
                if not live and rc != 0:
                    print(f"no verdict for {prop}: worker failed (rc {rc}): {err[-2000:]}", file=sys.stderr); return 2
                violation = violation or (h, cmd, args, s, None)
                continue
            for k in agg: agg[k] += r.get(k, 0)
            hs["runs"] += r["runs"]
            for k, v in r["counters"].items(): counters[k] = counters.get(k, 0) + v
            for k, v in r["faults"].items(): faults[k] = faults.get(k, 0) + v
            if len(samples) < 30: samples += r["samples"][:6]
            if r["found"] and violation is None: violation = (h, cmd, args, r["seed"], r)
        hs["runs_per_hour"] = int(hs["runs"] / max(wall, 1e-3) * 3600)
        harnesses.append(hs)
        if violation: break
    rc = 0
    nviol = 0
    detail = None
    if violation:
        rc, detail = confirm(prop, violation)
        nviol = 1 if rc == 1 else 0
    for e in known:
        print(f"KNOWN-FINDING: property={prop} {e['what']}")
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=agg["evaluations"], distinct_nontrivial=agg["distinct"], rule=P["rule"], samples=samples[:24],
            simulated_runs=agg["runs"], seeds_per_hour=int(agg["runs"] / max(sum(x["wall_s"] for x in harnesses), 1e-3) * 3600),
            simulated_steps=agg["steps"], simulated_time=P.get("time", "logical steps only: the code under test reads no clock"),
            faults_injected=faults, events=counters, distinct_schedules_or_histories=agg["distinct"], distinct_measure=P["rule"],
            determinism=dict(reruns=agg["rerun"], mismatches=agg["rerun_mismatch"]),
            harnesses=harnesses, build_s=round(build_s, 1), real_components=P["real"], stub_components=P["stub"]),
        assumptions=P["assumptions"], wall_s=round(wall, 2), violations=nviol)
    if detail: ev["violation"] = detail
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
    if rc == 0:
        print(f"OK property={prop} tier={tier} runs={agg['runs']} comparisons={agg['evaluations']} distinct={agg['distinct']} faults={sum(faults.values())} wall={wall:.1f}s")
    return rc

def confirm(prop, violation):
    """Reproduce, minimise, and reproduce again from the replay file in a fresh process."""
    h, cmd, args, s, r = violation
    os.makedirs(VERIF + "/replays", exist_ok=True)
    path = f"{VERIF}/replays/{prop}-{h['name']}-{s}.json"
    meta = dict(property=prop, harness=h["name"], seed=s)
    a = call(cmd + ["one", h["name"], str(s)], 200)
    b = a if a[1] and a[1]["class"] == "hang" else call(cmd + ["one", h["name"], str(s)], 200)
    if a[1] and b[1] and a[1]["violated"] and b[1]["violated"] and a[1]["class"] == b[1]["class"] and a[1]["hash"] == b[1]["hash"]:
        cls = a[1]["class"]
        if cls.startswith("machinery:"):
            print(f"no verdict for {prop}: {cls} {a[1]['message']}", file=sys.stderr); return 2, None
        full = f"{SCRATCH}/full.json"; json.dump(a[1], open(full, "w"))
        best = a[1]
        m = call(cmd + ["shrink", h["name"], full, cls, str(P_SHRINK)], P_SHRINK + 100)
        if m[1] and m[1]["violated"] and m[1]["class"] == cls: best = m[1]
        for cand in (best, a[1]):
            meta.update(kind="choices", **{"class": cls}, message=cand["message"], hash=cand["hash"], choices=cand["choices"], original_choices=a[1]["num_choices"], trace=cand["trace"])
            json.dump(meta, open(path, "w"))
            x = call(cmd + ["replay", h["name"], path], 200)
            if x[1] and x[1]["violated"] and x[1]["class"] == cls:
                print(f"{prop}: {cls}: {cand['message']}")
                print(f"  seed {s}, {a[1]['num_choices']} choices, minimised to {len(cand['choices'])}")
                print(f"VIOLATION property={prop} replay={path}")
                return 1, dict(seed=s, harness=h["name"], message=cand["message"], **{"class": cls}, replay=path)
    # the failure needs the history of the whole worker process: replay the batch of seeds
    first, stride = int(args[2]), int(args[4]); n = (s - first) // stride + 1
    def batch(f, k, tag):
        pg = f"{SCRATCH}/batch.pg"
        rc, j, p = call(cmd + ["run", h["name"], str(f), str(k), str(stride), "300", pg], 350)
        if rc is None: return None
        if j is None:
            page = open(pg, "rb").read(16); return ("crash", int.from_bytes(page[:8], "little"))
        return (j["class"], j["seed"]) if j["found"] else None
    x, y = batch(first, n, "a"), batch(first, n, "b")
    if x and x == y and x[1] == s:
        k = 1
        while k < n:
            if batch(s - (k - 1) * stride, k, "s") == x: break
            k *= 4
        k = min(k, n)
        meta.update(kind="batch", first=s - (k - 1) * stride, count=k, stride=stride, **{"class": x[0]}, message=(r or {}).get("message", "process died"))
        json.dump(meta, open(path, "w"))
        if batch(meta["first"], k, "f") == x:
            print(f"{prop}: {x[0]}: {meta['message']}\n  needs a history of {k} runs in one process ending with seed {s}")
            print(f"VIOLATION property={prop} replay={path}")
            return 1, dict(seed=s, harness=h["name"], message=meta["message"], **{"class": x[0]}, replay=path)
    # undefined behaviour of the code under test can make a failing run fail in varying ways: the seed's choices fail, not always alike
    for o in (a, b):
        if o[1] and o[1]["violated"] and not o[1]["class"].startswith("machinery:"):
            meta.update(kind="choices", **{"class": o[1]["class"]}, message=o[1]["message"], hash=o[1]["hash"], choices=o[1]["choices"], original_choices=o[1]["num_choices"], trace=o[1]["trace"], varies=True)
            json.dump(meta, open(path, "w"))
            for _ in range(3):
                z = call(cmd + ["replay", h["name"], path], 200)
                if z[1] and z[1]["violated"]:
                    print(f"{prop}: {o[1]['class']}: {o[1]['message']}\n  seed {s}; the way it fails varies (undefined behaviour): this time {z[1]['class']}")
                    print(f"VIOLATION property={prop} replay={path}")
                    return 1, dict(seed=s, harness=h["name"], message=o[1]["message"], **{"class": o[1]["class"]}, replay=path)
    if x and y:
        meta.update(kind="batch", first=first, count=n, stride=stride, **{"class": x[0]}, message=(r or {}).get("message", "process died"), varies=True)
        json.dump(meta, open(path, "w"))
        print(f"{prop}: {x[0]}: {meta['message']}\n  needs a history of {n} runs in one process; the way it fails varies (undefined behaviour)")
        print(f"VIOLATION property={prop} replay={path}")
        return 1, dict(seed=s, harness=h["name"], message=meta["message"], **{"class": x[0]}, replay=path)
    print(f"no verdict for {prop}: a failure at seed {s} did not reproduce: {r} {a[1] and (a[1]['class'], a[1]['message'])} {a[2].stderr[-500:]}", file=sys.stderr)
    return 2, None

P_SHRINK = 30
if __name__ == "__main__":
    sys.exit(main())
