#!/usr/bin/env python3
"""P22: overlapping Schwarz preconditioners.  TLC explores the sweeps of spec/Schwarz.tla and judges recorded applications and subdomains."""
import sys, os, json
from collections import Counter
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"tools"))
import vt
def run(c):
    h=c.build("schwarz.cc",bg=True); hs=c.build("schwarz.cc",out="schwarz-san",san=True,opt="-O0",bg=True)
    K=lambda p,d: dict(P=p,N0=1,Kinds="{}",Deep=d)
    c.model("Schwarz",vt.cfgtext(K(3,"FALSE"),"INVARIANTS Composed Local Fixed Whole Uncoupled SymPrec Points\n",init="INIT SInit\nNEXT SNext\nCHECK_DEADLOCK FALSE\n"))
    if c.thorough: c.model("Schwarz",vt.cfgtext(K(3,"TRUE"),"INVARIANTS Composed Local Fixed Whole Uncoupled SymPrec Points\n",init="INIT SInit\nNEXT SNext\nCHECK_DEADLOCK FALSE\n"))
    JC="INIT SJInit\nNEXT SJNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n P=30011\n N0=1\n Kinds={}\n Deep=FALSE\nINVARIANT SRecordOK\n"
    recs=[]
    for exe,seed,n in ((h.wait(),c.seed,1200 if not c.thorough else 20000),(hs.wait(),c.seed+1000,500 if not c.thorough else 6000)):
        r=c.run([exe,str(seed),str(n)],timeout=(600 if c.thorough else 150))
        if r.rc!=0: c.violation("an overlapping Schwarz preconditioner crashed or did not end (exit %d): %s"%(r.rc,r.err[-1500:]),{"seed":seed,"n":n})
        recs+=[l for l in r.out.splitlines() if l.startswith("{") and l.endswith("}")]
    def describe(d): return "%s Schwarz with solver %s (%s), on the fly %s: wrong correction"%(d["mode"],d["slv"],d["type"],d["fly"]) if d["kind"]=="app" else "wrong subdomains for overlap %s"%d["ov"]
    vt.judge_all(c,"Schwarz",JC,recs,describe,key=lambda d: d["kind"]+d.get("slv","")+d.get("ov",""))
    def corrupt(d):
        if d["kind"]=="app" and d["ap"]: d["ap"][0]["v"][0]=(d["ap"][0]["v"][0]+1)%30011; return d
    vt.selftest(c,"Schwarz",JC,recs,corrupt)
    c.extra["records"]=dict(Counter("/".join(str(d.get(k,"")) for k in ("kind","mode","slv","type","ov")) for d in map(json.loads,recs)))
    c.assumptions=["GF(30011), or integers whose local problems have integer solutions (UMFPack, SuperLU; results rounded to integers)","up to 7 block rows, 4 subdomains covering every row"]
if __name__=="__main__": vt.main("P22",run)
