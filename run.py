#!/usr/bin/env python3
"""Development aid: run.py LL ENTRIES [symx options] prints a summary per entry."""
import json,subprocess,sys,os
ll,en=sys.argv[1:3]
out="/tmp/symx_%d.json"%os.getpid()
r=subprocess.run(["/verif/engine/target/release/symx","--ir",ll,"--entries",en,"--out",out]+sys.argv[3:],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
if r.returncode: print(r.stdout[-2000:])
J=json.load(open(out)); os.unlink(out)
print("queries",J["queries"],"unk",J["unknown"],"solver_s",round(J["solver_s"],1))
for e,s in J["entries"].items():
    print(e,"paths",s["paths"],"checks",s["checks"],"triv",s["trivial"],"undec",s["undecided_checks"],"unconf",s["unconfirmed_paths"],"stuck",s["stuck"],"unfin",s["unfinished"],"cpu",round(s["cpu_s"],1),"covers",s["covered"],"infeas",s["infeasible"])
    for v in s["violations"]: print("   VIOL",v["msg"],v["stack"][:4],v["trace"]["inputs"], "known",v["trace"]["known"])
