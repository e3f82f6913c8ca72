#!/usr/bin/env python3
"""runseeds.py [ids...]: runs the check of each planted bug's property with the bug applied."""
import json, os, subprocess, sys, time
V = "/verif"
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    t = time.time()
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    try:
        p = subprocess.run(["python3-vt", "lib/check.py", prop, "quick"], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    hit = p.returncode == 1 and "VIOLATION property=%s " % prop in p.stdout
    print("%-32s %s %s rc=%d %.0f s" % (i, prop, "CAUGHT" if hit else "MISSED", p.returncode, time.time() - t), flush=True)
    for l in p.stdout.splitlines():
        if l.startswith(("violation:", "PROBLEM")):
            print("      " + l[:300])
