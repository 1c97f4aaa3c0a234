#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py (level notes, not-applicable reasons)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(HERE + "/../properties.jsonl")]
PURE = "a pure function of its arguments: no schedule, fault, history, clock or I/O for a simulator to control, so seeded simulation would only be random testing of inputs; "
NA = {
 "C20": PURE + "and it is a property of the coupling coefficients in real model files, which are not available offline. (Energies and forces are compared with an independent reference in C04, C06, C09.)",
 "C21": PURE + "and torch, mace and real models are not available offline.",
}
checks = []
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 bin/check.py {i} quick", thorough_cmd=f"python3 bin/check.py {i} thorough",
            technique="deterministic simulation with fault injection", level="exploration",
            level_note="Seeded search over simulated runs, not exhaustive. Real: " + "; ".join(P["real"]) + ". Stubbed: " + "; ".join(P["stub"]) + ". Assumes: " + "; ".join(P["assumptions"]) + "."))
m = dict(version=1, setup_cmd="python3 bin/build.py", checks=checks,
    not_applicable=[dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in PROPS],
    notes="No hooks in /repo: every seam is outside the sources (replacement headers, replaced heap and scheduler, interposed I/O). See DESIGN.md.")
json.dump(m, open(HERE + "/../MANIFEST.json", "w"), indent=1)
