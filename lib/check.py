#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: decides one property on /repo's current tree."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

from registry import REG  # noqa: E402


def known(prop):
    """Known findings: {key: text} for lines 'finding: property=<id> key=<key> <text>'."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=%s key=" % prop):
                rest = line.split("key=", 1)[1].strip()
                k, _, t = rest.partition(" ")
                out[k] = t
    return out


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    reg = REG[prop]
    t0 = time.time()
    violations, problems, cov, assumptions = [], [], {}, list(reg.get("assumptions", []))
    for eng, kw in reg["engines"]:
        try:
            if eng == "K":
                import kani_run
                r = kani_run.run(prop, tier, **kw)
            else:
                import sym_run
                r = sym_run.run(prop, tier, **kw)
        except Exception as e:  # noqa: BLE001
            problems.append("engine %s: %s" % (eng, "".join(traceback.format_exception_only(type(e), e))))
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            continue
        violations += r["violations"]
        problems += r["problems"]
        cov[{"K": "kani", "S": "symbolic_instantiation"}[eng]] = r["coverage"]
        assumptions += r.get("assumptions", [])
    kf = known(prop)
    new = [v for v in violations if v[0] not in kf]
    old = [v for v in violations if v[0] in kf]
    for name, desc, path in old:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, name, kf[name]))
    seen = {v[0] for v in violations}
    for k in kf:
        if k not in seen:
            print("note: known finding %s was not observed" % k)
    cov = {"explanation": reg["explanation"], "bounds": reg["bounds"][tier] if isinstance(reg["bounds"], dict)
           else reg["bounds"], "outside_the_claim": reg["outside"], **cov}
    if problems:
        cov["problems"] = problems
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": reg["level"], "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": assumptions, "violations": len(new)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for p in problems:
        print("PROBLEM: " + p)
    for name, desc, path in new:
        print("violation: %s: %s" % (name, desc))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s: %d violations, %d problems, %.0f s" % (prop, tier, len(new), len(problems), time.time() - t0))
    sys.exit(1 if new else 2 if problems else 0)


main()
