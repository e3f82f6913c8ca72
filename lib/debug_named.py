"""debug_named.py <module> <job name prefix> [seconds]: explores the matching jobs."""
import sys
sys.path.insert(0,'/verif/lib')
import importlib
from sym_run import *
mod,pre=sys.argv[1],sys.argv[2]
m=importlib.import_module("symprops."+mod)
b=sym_build.prepare(getattr(m, "KIND", "core"))
for j in m.jobs("quick"):
    if not j.name.startswith(pre): continue
    r=Runner(mod,"quick",b,time.time()+float(sys.argv[3]) if len(sys.argv)>3 else time.time()+100); r.eng_path=b
    t=time.time()
    (j.run(r) if hasattr(j,"run") else r.explore(j))
    print(j.name, round(time.time()-t,1), {k:v for k,v in r.jobs[-1].items()} if r.jobs else "")
    for v in r.violations: print("  V", str(v)[:600])
    for u in sorted(set(r.undecided))[:12]: print("  U", u[:300])
