import sys
sys.path.insert(0,'/verif/lib')
import importlib
from sym_run import *
prop,ji,si=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
m=importlib.import_module("symprops."+prop)
r=Runner(prop,"quick",sym_build.prepare(),100); r.eng_path=""
j=m.jobs("quick")[ji]
v=j.seeds(r.rnd)[si]
req,log,end=r.execute(j,v)
print(end)
st=r.state(j,v)
st.interp(log)
for c in st.pc: print(repr(c)[:int(sys.argv[4]) if len(sys.argv)>4 else 200])
for g in j.goals(st,r.sym(j,v),v):
    print(g.name,g.check(),g.prove(),g.want()[:100],g.got()[:3000])
