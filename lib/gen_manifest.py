#!/usr/bin/env python3
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from registry import REG
V = os.path.dirname(HERE)
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = json.load(open(os.path.join(HERE, "not_applicable.json")))
checks = []
for p in props:
    if p in REG:
        r = REG[p]
        b = r["bounds"]
        note = "Within bounds: %s. Outside: %s." % (b["quick"] if isinstance(b, dict) else b, r["outside"])
        checks.append({"property": p, "quick_cmd": "python3-vt lib/check.py %s quick" % p,
                       "thorough_cmd": "python3-vt lib/check.py %s thorough" % p, "technique": r["technique"],
                       "level": r["level"], "level_note": note, "evidence_file": "evidence/%s.json" % p})
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": p, "reason": na[p] if p in na else "machinery not built yet"} for p in props if p not in REG],
     "notes": "No hooks in /repo: harness modules are mounted into generated views of the crate (lib/view.py)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
