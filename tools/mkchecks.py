#!/usr/bin/env python3
"""Writes checks.json (what the engine runs per property) and MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def run(fn, params=None, quick=None, thorough=None, reach=None, note="", **kw):
    d = {"fn": fn, "params": params or {}, "reach": reach or ["end"], "note": note}
    if quick: d["quick"] = quick
    if thorough: d["thorough"] = thorough
    d.update(kw)
    return d

COMMON = ["Go semantics as implemented by the engine (int is 64 bits, amd64 layout); stdlib below fmt, strconv formatting, sync, time, net and reflect is modelled, the rest is executed from its SSA",
          "z3 5.3.2 (z3-new) is trusted; unknown answers are reported as reduced bounds"]
CHECKS = {}
exec(open(os.path.join(ROOT, "tools", "checks_codec.py")).read())
for f in ("checks_chancall.py", "checks_misc.py", "checks_network.py", "checks_ferry.py"):
    p = os.path.join(ROOT, "tools", f)
    if os.path.exists(p):
        exec(open(p).read())

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
ids = [p["id"] for p in props]
NA = {
    "T01": "the generator reads and writes files through text/template and its behaviour is the text it prints; symbolic execution of template rendering and of the Go compiler that would have to accept its output is out of reach of the encoding, and the generated code has no branches to decide",
}
for i in ids:
    if i not in CHECKS and i not in NA:
        NA[i] = "no check built yet"
spec = {}
man = {"version": 1, "setup_cmd": "bash ./setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        spec[i] = {"runs": c["runs"], "bounds": c["bounds"], "assumptions": c.get("assumptions", []) + COMMON}
        man["checks"].append({
            "property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "bounded symbolic execution of the Go SSA with z3, counterexamples replayed natively"),
            "level": "model_checking",
            "level_note": c["note"],
        })
    else:
        man["not_applicable"].append({"property": i, "reason": NA[i]})
assert set(CHECKS) <= set(ids), set(CHECKS) - set(ids)
json.dump(spec, open(os.path.join(ROOT, "checks.json"), "w"), indent=1)
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
