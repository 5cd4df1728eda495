#!/usr/bin/env python3
"""P08: Krylov recurrences over an exact field.  TLC explores spec/Krylov.tla and judges the recorded iterates of the real solvers."""
import sys, os, json
from collections import Counter
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"tools"))
import vt
PR=30011
def run(c):
    h=c.build("krylov.cc",bg=True); hs=c.build("krylov.cc",out="krylov-san",san=True,bg=True)
    inv="INVARIANTS TrueResidual Conjugate Exact ExactBi CGequiv\n"
    c.model("Krylov",vt.cfgtext(dict(P=3,N0=2,Sols='{"cg","gpcg","rfcg","cfcg","bicgstab","gradient"}'),inv,init="INIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\n"))
    if c.thorough: c.model("Krylov",vt.cfgtext(dict(P=7,N0=1,Sols='{"cg","gpcg","rfcg","cfcg","bicgstab","gradient","loop"}'),inv,init="INIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\n"))
    JC="INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n P=%d\n N0=1\n Sols={}\nINVARIANT RecordOK\n"%PR
    recs=[]
    for exe,seed,n in ((h.wait(),c.seed,500 if not c.thorough else 12000),(hs.wait(),c.seed+1000,60 if not c.thorough else 600)):
        f=c.path("k%d.json"%seed); r=c.run([exe,f,str(seed),str(n)],timeout=(600 if c.thorough else 150))
        if r.rc!=0 or "RECORDS" not in r.out: c.violation("a solver crashed on exact data (exit %d): %s"%(r.rc,r.err[-1500:]),{"seed":seed,"n":n})
        recs+=open(f).read().splitlines()
    vt.judge_all(c,"Krylov",JC,recs,lambda d: "%s: iterate/residual after %d iterations (restart parameter %d, %d preconditioners) is not that of the recurrence"%(d["sol"],d["its"],d["par"],len(d["B"]))+(" (apply number %d of one solver object)"%(d["nr"]+1) if d["nr"] else ""))
    def corrupt(d):
        if d["sol"]=="cg" and d["out"]=="ok": d["x"][0][0]=(d["x"][0][0]+1)%PR; return d
    vt.selftest(c,"Krylov",JC,recs,corrupt)
    c.extra["records_per_solver"]=dict(Counter(json.loads(l)["sol"] for l in recs))
    c.assumptions=["arithmetic in GF(30011^2) stands for exact complex arithmetic; records in which the recurrence itself divides by zero are not constrained",
        "the CG-type methods are given hermitian matrices and preconditioners"]
if __name__=="__main__": vt.main("P08",run)
