#!/usr/bin/env python3
"""P25: several right-hand sides at once.  TLC explores spec/Lanes.tla (joint recurrences, joint stopping rule) and judges recorded runs with SIMD field types."""
import sys, os, json
from collections import Counter
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"tools"))
import vt
PR=30011
def run(c):
    T=c.thorough
    h=c.build("lanes.cc",bg=True); hs=c.build("lanes.cc",out="lanes-san",san=True,opt="-O0",bg=True)
    ND="CHECK_DEADLOCK FALSE\n"
    sols='{"cg","gpcg","rfcg","cfcg","bicgstab","gradient","loop"}'
    c.model("Lanes",vt.cfgtext(dict(P=3,N0=2 if T else 1,Sols=sols,Es="{0}"),"INVARIANTS Alone Waits Longest\n",init="INIT LInit\nNEXT LNext\n"+ND))
    if not T: c.model("Lanes",vt.cfgtext(dict(P=3,N0=2,Sols='{"cg"}',Es="{0}"),"INVARIANTS Alone Waits Longest\n",init="INIT LInit\nNEXT LNext\n"+ND))
    c.model("Lanes",vt.cfgtext(dict(P=3,N0=1,Sols="{}"),"CONSTANT Es <- EsA\nINVARIANTS Every Lasts\n",init="INIT SInit\nNEXT SNext\n"+ND))
    JC="INIT LJInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n P=%d\n N0=1\n Sols={}\n Es={}\nINVARIANT LRecordOK\n"%PR
    recs=[]
    for exe,seed,n in ((h.wait(),c.seed,120 if not T else 3000),(hs.wait(),c.seed+1000,12 if not T else 300)):
        f=c.path("l%d.json"%seed); r=c.run([exe,f,str(seed),str(n)],timeout=(600 if T else 150))
        if r.rc!=0 or "RECORDS" not in r.out: c.violation("an operation on several right-hand sides crashed (exit %d): %s"%(r.rc,r.err[-1500:]),{"seed":seed,"n":n})
        if os.path.exists(f): recs+=[l for l in open(f).read().splitlines() if l.endswith("}")]
    def describe(d):
        if d["kind"]=="kry": return "%s with %d lanes: the iterate of a lane after %d iterations is not that of the recurrence for this lane"%(d["sol"],len(d["b"]),d["its"])
        if d["kind"]=="ctl": return "%s with scripted norms of several lanes: stopping, iteration count or reduction wrong"%d["sol"]
        if d["kind"]=="real": return "%s (%s): the joint solve of several lanes differs from the solves of the lanes (%s, converged %s, defects %s)"%(d["sol"],d["prec"],d["out"],d["conv"],d["defs"])
        return "%s: a lane of the result is not the result of the lane"%d["op"]
    vt.judge_all(c,"Lanes",JC,recs,describe,key=lambda d: d["kind"]+"/"+d.get("sol",d.get("op","")))
    def corrupt(d):
        if d["kind"]=="kry" and d["out"]=="ok" and d["sol"]=="cg" and min(map(min,d["x"]))>=0: d["x"][0][0]=(d["x"][0][0]+1)%PR; return d
    vt.selftest(c,"Lanes",JC,recs,corrupt)
    ds=[json.loads(l) for l in recs]
    c.extra["records"]=dict(Counter(d["kind"]+"/"+d.get("sol",d.get("op","")) for d in ds)); c.extra["real"]=dict(Counter(d["out"]+("/conv" if d["conv"] else "")+"/"+",".join(sorted({l["out"] for l in d["lanes"]})) for d in ds if d["kind"]=="real"))
    c.assumptions=["SIMD type: LoopSIMD with 2, 3 and 4 lanes (Vc is not installed)","Krylov lanes over GF(30011): lanes whose recurrence divides by zero are not constrained","double precision: iteration counts within one of the longest lane"]
if __name__=="__main__": vt.main("P25",run)
