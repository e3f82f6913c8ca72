import sys,cProfile,pstats
sys.path.insert(0,'/verif/lib')
import sym_run, importlib
from sym_run import *
prop,ji,si=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
m=importlib.import_module("symprops."+prop)
r=Runner(prop,"quick",sym_build.prepare(),100); r.eng_path=""
j=m.jobs("quick")[ji]
v=j.seeds(r.rnd)[si]
req,log,end=r.execute(j,v)
if "log" in sys.argv: print("\n".join(l[:300] for l in log)); 
print(end)
st=r.state(j,v)
pr=cProfile.Profile(); pr.enable()
st.interp(log)
pr.disable()
if "prof" in sys.argv: pstats.Stats(pr).sort_stats("cumtime").print_stats(14)
if "pc" in sys.argv: 
    for c in st.pc: print(c)
gs=j.goals(st,r.sym(j,v),v)
for g in gs:
    print(g.name,g.check(),end=" ",flush=True)
    t=time.time(); print(g.prove(), round(time.time()-t,2))
for k,x in st.out.items():
    if x[0]: print(k,str(st.val[x[0]])[:1500])
print(st.cons)
print(st.rules, st.ringof)

