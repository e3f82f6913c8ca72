import sys,json
sys.path.insert(0,'/verif/lib')
import sym_run
r=sym_run.run(sys.argv[1],sys.argv[2] if len(sys.argv)>2 else "quick", **({"module": sys.argv[3]} if len(sys.argv)>3 else {}))
c=r["coverage"]
print("VIOL",r["violations"]); print("PROB",r["problems"])
for j in c.get("jobs",[]): print(j)
print({k:v for k,v in c.items() if k not in("jobs","encoded_operations")})
