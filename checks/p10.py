#!/usr/bin/env python3
"""P10: sweeps, triangular/diagonal solves and the preconditioners built from them.  TLC explores spec/Sweeps.tla and judges recorded applications."""
import sys, os, json
from collections import Counter
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"tools"))
import vt
PR=30011
def run(c):
    h=c.build("sweeps.cc",bg=True); hs=c.build("sweeps.cc",out="sweeps-chk",san=True,extra=["-DDUNE_ISTL_WITH_CHECKING"],bg=True)
    inv="INVARIANTS FixedPoint Linear Defining Triangular Agree\n"; ini="INIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\n"
    c.model("Sweeps",vt.cfgtext(dict(P=3,MaxN=3 if c.thorough else 2,Deep="TRUE" if c.thorough else "FALSE"),inv,init=ini))
    JC="INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n P=%d\n MaxN=1\n Deep=FALSE\nINVARIANT RecordOK\n"%PR
    recs=[]
    for exe,seed,n in ((h.wait(),c.seed,22 if not c.thorough else 400),(hs.wait(),c.seed+1000,12 if not c.thorough else 150)):
        f=c.path("s%d.json"%seed); r=c.run([exe,f,str(seed),str(n)],timeout=(600 if c.thorough else 150))
        if r.rc!=0 or "RECORDS" not in r.out: c.violation("a sweep or preconditioner crashed on a regular matrix (exit %d): %s"%(r.rc,r.err[-1500:]),{"seed":seed,"n":n})
        recs+=open(f).read().splitlines()
    def describe(d):
        if d["kind"]=="diag": return "%s: missing diagonal entry=%s but exception thrown=%s"%(d["m"],d["missing"],d["thrown"])
        return "%s %s (block levels %d, relaxation %d, %d iterations) on %s does not give the result of the defining sweep"%(d["kind"],d["m"],d["l"],d["w"],d["it"],d["type"])
    vt.judge_all(c,"Sweeps",JC,recs,describe,key=lambda d: d["kind"]+":"+d["m"]+":"+d.get("type",""))
    def corrupt(d):
        if d["kind"]=="sweep" and d["out"]=="ok" and d["y"]: d["y"][0][0]=(d["y"][0][0]+1)%PR; return d
    vt.selftest(c,"Sweeps",JC,recs,corrupt)
    c.extra["records"]=dict(Counter(json.loads(l)["m"] for l in recs))
    c.assumptions=["arithmetic in GF(30011^2) stands for exact complex arithmetic; records with a singular diagonal block are not constrained",
        "dynamic record sizes up to 4 block rows (3x4 nested), values random"]
if __name__=="__main__": vt.main("P10",run)
