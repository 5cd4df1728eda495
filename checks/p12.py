#!/usr/bin/env python3
"""P12: ILU(0), ILU(n), DILU and LDL^T factorisations and the solves with them.  TLC explores spec/Incomplete.tla and judges recorded factors and applications."""
import sys, os, json
from collections import Counter
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"tools"))
import vt
PR=30011
def run(c):
    h=c.build("incomplete.cc",bg=True); hs=c.build("incomplete.cc",out="incomplete-san",san=True,bg=True)
    ini="INIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\n"
    c.model("Incomplete",vt.cfgtext(dict(P=7,N0=4 if c.thorough else 3,Kinds='{"ilu","dilu","ildl"}'),"INVARIANTS OnPattern Patterns Exact\n",init=ini))
    JC="INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n P=%d\n N0=1\n Kinds={}\nINVARIANT RecordOK\n"%PR
    recs=[]
    for exe,seed,n in ((h.wait(),c.seed,400 if not c.thorough else 3000),(hs.wait(),c.seed+1000,100 if not c.thorough else 1000)):
        f=c.path("i%d.json"%seed); r=c.run([exe,f,str(seed),str(n)],timeout=(800 if c.thorough else 150))
        if r.rc!=0 or "RECORDS" not in r.out: c.violation("an incomplete factorisation crashed (exit %d): %s"%(r.rc,r.err[-1500:]),{"seed":seed,"n":n})
        recs+=open(f).read().splitlines()
    def describe(d):
        if d["kind"]=="diag": return "%s: missing diagonal entry=%s but exception thrown=%s"%(d["m"],d["missing"],d["thrown"])
        if d["kind"]=="sing": return "%s(%d) of a %dx%d matrix of 4x4 blocks: outcome %s (row %d, column %d) does not report the first pivot block without an inverse"%(d["m"],d["n"],d["nb"],d["nb"],d["out"],d["r"],d["c"])
        return "%s(%d) of a %dx%d matrix of %s: factors, pattern or one of the applications %s (relaxations %s) differ from the definition (outcome %s, inputs untouched %s)"%(d["kind"],d["n"],d["nb"],d["nb"],d["type"],[v["how"] for v in d["vs"]],[v["w"] for v in d["vs"]],d["out"],d["pure"])
    vt.judge_all(c,"Incomplete",JC,recs,describe,key=lambda d: d["kind"]+":"+str(d.get("n",d.get("m")))+":"+d.get("type",""))
    def corrupt(d):
        if d["kind"] not in ("diag","sing") and d["out"]=="ok" and d["vs"]: d["vs"][-1]["v"][0][0]=(d["vs"][-1]["v"][0][0]+1)%PR; return d
    vt.selftest(c,"Incomplete",JC,recs,corrupt)
    c.extra["records"]=dict(Counter(json.loads(l)["kind"] for l in recs))
    c.assumptions=["arithmetic in GF(30011^2) stands for exact complex arithmetic; records where the definition meets a singular pivot are not constrained",
        "recorded matrices up to 6 block rows, values random; fill levels 0..4"]
if __name__=="__main__": vt.main("P12",run)
