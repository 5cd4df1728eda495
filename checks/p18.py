#!/usr/bin/env python3
"""P18: multigrid cycles.  TLC explores the cycle machine of spec/AmgCycle.tla and judges recorded applications of the AMG preconditioners."""
import sys, os, json
from collections import Counter
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"tools"))
import vt
def run(c):
    hp=c.build("amgcyclepar.cc",out="amgcyclepar-san",san=True,opt="-O0",bg=True); h=c.build("amgcycle.cc",bg=True); hs=c.build("amgcycle.cc",out="amgcycle-san",san=True,opt="-O0",bg=True)
    c.model("AmgCycle",vt.cfgtext(dict(P=3,Deep="TRUE" if c.thorough else "FALSE"),"INVARIANTS Residual Result Linear\n",init="INIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\n"))
    JC="INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n P=30011\n Deep=FALSE\nINVARIANT RecordOK\n"
    recs=[]
    for exe,seed,n in ((h.wait(),c.seed,160 if not c.thorough else 2500),(hs.wait(),c.seed+1000,60 if not c.thorough else 600)):
        r=c.run([exe,str(seed),str(n)],timeout=(800 if c.thorough else 150))
        if r.rc!=0: c.violation("building or applying a multigrid preconditioner crashed (exit %d): %s"%(r.rc,r.err[-1500:]),{"seed":seed,"n":n})
        recs+=[l for l in r.out.splitlines() if l.startswith("{") and l.endswith("}")]
    exe=hp.wait()
    for np,n in ((2,100),(3,100),(4,100)) if not c.thorough else ((1,300),(2,2500),(3,2500),(4,2500),(5,1500)):
        f=c.path("par%d.json"%np); r=c.run([exe,f,str(c.seed+np),str(n)],np=np,timeout=120 if not c.thorough else 400)
        if r.rc!=0 or "RECORDS" not in r.out: c.violation("distributed multigrid preconditioner crashed or did not end on %d processes (exit %d): %s"%(np,r.rc,r.err[-1500:]),{"np":np,"seed":c.seed+np,"n":n})
        recs+=[l for l in open(f).read().splitlines() if l.startswith("{") and l.endswith("}")] if os.path.exists(f) else []
    def describe(d): return "%s, smoother %s, %s levels: %s"%(d["kind"],d.get("sm"),d.get("levels"),"wrong hierarchy, preparation or correction" if d["what"]=="ok" else d["what"])
    vt.judge_all(c,"AmgCycle",JC,recs,describe,key=lambda d: d["kind"]+("par" if "np" in d else ""))
    def corrupt(d):
        if d.get("ap") and d["levels"]>1: d["ap"][0]["v"][0]=(d["ap"][0]["v"][0]+1)%30011; return d
    vt.selftest(c,"AmgCycle",JC,recs,corrupt)
    c.extra["records"]=dict(Counter("%s/np%s/levels%s/redistributed%s"%(d["kind"],d.get("np",0),d.get("levels"),d.get("red",0)) for d in map(json.loads,recs)))
    c.assumptions=["GF(30011): structurally symmetric matrices with nonsingular diagonal blocks, up to 10 unknowns","user-supplied coarse solver (any linear map) and aggregation flags","distributed: owner/copy index sets, up to 12 block rows on up to 5 processes, AMG and KAMG with every accumulation mode, additive without accumulation","FastAMG is sequential, used with symmetric matrices and always performs one pre- and one postsmoothing step"]
if __name__=="__main__": vt.main("P18",run)
