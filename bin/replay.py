#!/usr/bin/env python3
"""replay.py FILE - replays a violation file against /repo's current tree (exit 1: reproduced)."""
import json, os, sys, subprocess, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, build as B
from props import PROPS
f = os.path.abspath(sys.argv[1]); m = json.load(open(f))
check.KEY = B.source_key(); check.SCRATCH = tempfile.mkdtemp(prefix="vsim-")
try:
    h = [x for x in PROPS[m["property"]]["harnesses"] if x["name"] == m["harness"]][0]
    check.ENV["V_KNOWN"] = check.known_env(check.load_known(m["property"]))
    cmd = check.command(h)
    if m["kind"] == "choices": a = ["replay", h["name"], f]
    else: a = ["run", h["name"], str(m["first"]), str(m["count"]), str(m["stride"]), "3000", check.SCRATCH + "/pg"]
    rc, j, r = check.call(cmd + a, 3600)
    print(json.dumps({k: v for k, v in (j or {}).items() if k != "choices"}, indent=1) if j else r.stderr[-2000:])
    hit = (j is None) or j.get("violated") or j.get("found")
    print("reproduced" if hit else "not reproduced")
finally: shutil.rmtree(check.SCRATCH, ignore_errors=True)
sys.exit(1 if hit else 0)
