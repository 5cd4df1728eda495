#!/usr/bin/env python3
"""P15: parallel operators, preconditioner wrappers, scalar products and solves.  TLC explores spec/ParOp.tla and judges calls recorded from MPI processes; distributed solves are judged as global ones by spec/Krylov.tla."""
import sys, os, json
from collections import Counter
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"tools"))
import vt
PR=30011
def run(c):
    h=c.build("parop.cc",bg=True)
    for np,ng in ((2,2),(3,2)) if not c.thorough else ((2,3),(3,2),(4,2)):
        c.model("ParOp",vt.cfgtext(dict(P=19,NP=np,NG=ng),"INVARIANTS ProductIsGlobal CountedOnce GhostsZero\n",init="INIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\n"))
    JC="INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n P=%d\n NP=1\n NG=1\nINVARIANT RecordOK\n"%PR
    KJ="INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n P=%d\n N0=1\n Sols={}\nINVARIANT RecordOK\n"%PR
    recs=[]; krecs=[]; K=1 if not c.thorough else 15
    for np,cnt in ((1,6),(2,30),(3,45),(4,25)):
        f=c.path("o-%d.json"%np); r=c.run([h.wait(),f,str(c.seed+np),str(cnt*K)],np=np,timeout=(600 if c.thorough else 150))
        if r.rc!=0 or "RECORDS" not in r.out: c.violation("parallel operators on %d processes crashed or hung (exit %d): %s"%(np,r.rc,r.err[-1200:]),{"np":np,"seed":c.seed+np,"cnt":cnt*K})
        else: recs+=open(f).read().splitlines(); krecs+=open(f+".k").read().splitlines()
    def describe(d):
        if d["kind"] in ("ov","nov"): return "%s operator (%s) on %d processes: result is not that of the global matrix"%({"ov":"overlapping","nov":"non-overlapping"}[d["kind"]],d["op"],d["np"])
        return "%s %s on %d processes is not the global result"%({"dot":"scalar product","norm":"norm","prec":"preconditioner","pre":"preconditioner pre()"}[d["kind"]],d["op"],d["np"])
    vt.judge_all(c,"ParOp",JC,recs,describe,key=lambda d: d["kind"]+":"+d["op"])
    vt.judge_all(c,"Krylov",KJ,krecs,lambda d: "%s of a distributed (%s) system differs from the solve of the global system"%(d["sol"],"non-overlapping" if d["nov"] else "overlapping"),key=lambda d:d["sol"]+str(d["nov"]))
    def corrupt(d):
        if d["kind"]=="nov":
            for p in range(d["np"]):
                for g in range(d["ng"]):
                    if d["at"][p][g]==3: d["res"][p][g][0]=(d["res"][p][g][0]+1)%PR; return d
    vt.selftest(c,"ParOp",JC,recs,corrupt)
    c.extra["records"]=dict(Counter("%s/%s"%(json.loads(l)["kind"],json.loads(l)["op"]) for l in recs)); c.extra["solves"]=dict(Counter(json.loads(l)["sol"] for l in krecs))
    c.assumptions=["arithmetic in GF(30011^2) stands for exact complex arithmetic; norms on small integers","every unknown has exactly one owner; overlapping: owner rows complete for the comparison with the global matrix; non-overlapping: the local matrices are a decomposition as ParOp!Legal states","up to 4 MPI processes, message order is the scheduler's"]
if __name__=="__main__": vt.main("P15",run)
