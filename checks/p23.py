#!/usr/bin/env python3
"""P23: eigenvalue iterations.  TLC explores spec/Eigen.tla over a tiny field and judges recorded histories of the real class."""
import sys, os, json
from collections import Counter
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"tools"))
import vt
def run(c):
    T=c.thorough
    h=c.build("eigen.cc",extra=["-DNDEBUG"],bg=True); hs=c.build("eigen.cc",out="eigen-san",san=True,opt="-O0",extra=["-DNDEBUG"],bg=True)
    c.model("Eigen",vt.cfgtext(dict(P=11 if T else 7,MaxK=5 if T else 3),"INVARIANTS Unit Rayleigh Residual Eigenpair Modes\nPROPERTY Once\n",init="INIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\n"))
    JC="INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n P=30011\n MaxK=0\nINVARIANT RecordOK\n"
    recs=[]
    for exe,seed,n in ((h.wait(),c.seed,350 if not T else 6000),(hs.wait(),c.seed+1000,50 if not T else 800)):
        f=c.path("e%d.json"%seed); r=c.run([exe,f,str(seed),str(n)],timeout=(600 if T else 150))
        if r.rc!=0 or "RECORDS" not in r.out: c.violation("an eigenvalue iteration crashed or did not end (exit %d): %s"%(r.rc,r.err[-1500:]),{"seed":seed,"n":n})
        if os.path.exists(f): recs+=[l for l in open(f).read().splitlines() if l.endswith("}")]
    def describe(d):
        if d["kind"]=="hist": return "a history of eigenvalue iterations (%s) leaves its definition"%",".join(sorted({s["op"] for s in d["steps"]}))
        if d["kind"]=="real": return "%s iteration: reported result is no eigenpair within the tolerance, or not the promised one (%s, residual %d/1000 eps, lambda %d/1000)"%(d["alg"],d["out"],d["res"],d["lam"])
        return "a matrix of %dx%d blocks is %s"%(d["n"],d["k"],"accepted" if d["out"]=="ok" else "refused")
    vt.judge_all(c,"Eigen",JC,recs,describe,key=lambda d: d["kind"]+d.get("alg",""))
    def corrupt(d):
        for s in d.get("steps",[]):
            if s["op"]!="count" and s["out"]=="ok": s["lam"]=(s["lam"]+1)%30011; return d
    vt.selftest(c,"Eigen",JC,recs,corrupt)
    ds=[json.loads(l) for l in recs]
    c.extra["records"]=dict(Counter(d["kind"] for d in ds)); c.extra["iterations"]=dict(Counter("%s/%s/%s"%(s["op"],s["out"],s.get("its")) for d in ds for s in d.get("steps",[]))); c.extra["real"]=dict(Counter(d["alg"]+"/"+d["out"] for d in ds if d["kind"]=="real"))
    c.assumptions=["histories over GF(30011): only those whose norms all exist; up to 4 unknowns","the start value of lambda counts as the previous Rayleigh quotient of TLIME","real matrices: symmetric with integer eigenvalues, gap ratio 0.8 where convergence is demanded","ARPACK++ is not installed: arpackpp.hh is not covered"]
if __name__=="__main__": vt.main("P23",run)
