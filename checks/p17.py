#!/usr/bin/env python3
"""P17: aggregation, transfer and coarse operators of the AMG.  TLC explores the aggregation process of spec/AmgAgg.tla and the distributed coarsening of spec/AmgPar.tla and judges recorded hierarchies."""
import sys, os, json
from collections import Counter
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"tools"))
import vt
def run(c):
    hp=c.build("amgpar.cc",out="amgpar-san",san=True,opt="-O0",bg=True); h=c.build("amgagg.cc",bg=True); hs=c.build("amgagg.cc",out="amgagg-san",san=True,opt="-O0",bg=True)
    c.model("AmgAgg",vt.cfgtext(dict(MaxN=4 if c.thorough else 3,Deep="FALSE" if c.thorough else "TRUE"),"INVARIANTS Numbered Connected OnlyIsolated Sizes Progress IsoApart\n",init="INIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\n"))
    c.model("AmgPar",vt.cfgtext(dict(N=4 if c.thorough else 3,Procs="{1,2}"),"INVARIANTS CopiesAgree GalerkinRows\n",init="INIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\n"))
    JC="INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxN=1\n Deep=FALSE\nINVARIANT RecordOK\n"
    recs=[]
    for exe,seed,n in ((h.wait(),c.seed,1200 if not c.thorough else 20000),(hs.wait(),c.seed+1000,500 if not c.thorough else 5000)):
        r=c.run([exe,str(seed),str(n)],timeout=400 if c.thorough else 100)
        if r.rc!=0: c.violation("coarsening crashed or did not end (exit %d): %s"%(r.rc,r.err[-1500:]),{"seed":seed,"n":n})
        recs+=[l for l in r.out.splitlines() if l.startswith("{") and l.endswith("}")]
    JP="INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n N=1\n Procs={1}\nINVARIANT RecordOK\n"
    par=[]; exe=hp.wait()
    for np,n in ((2,120),(3,120),(4,120)) if not c.thorough else ((1,200),(2,1500),(3,1500),(4,1500)):
        f=c.path("par%d.json"%np); r=c.run([exe,f,str(c.seed+np),str(n)],np=np,timeout=120 if not c.thorough else 400)
        if r.rc!=0 or "RECORDS" not in r.out: c.violation("distributed coarsening crashed or did not end on %d processes (exit %d): %s"%(np,r.rc,r.err[-1500:]),{"np":np,"seed":c.seed+np,"n":n})
        par+=[l for l in open(f).read().splitlines() if l.startswith("{") and l.endswith("}")] if os.path.exists(f) else []
    vt.judge_all(c,"AmgPar",JP,par,lambda d: "wrong distributed hierarchy on %s processes (accumulation %s)"%(d["np"],d["acc"]),key=lambda d: "par%d%d"%(d["np"],d["acc"]))
    def corruptp(d):
        for l in d["lev"][0][1:]:
            for e in l["a"]:
                if e[0]!=e[1] and any(q[0]==e[0] and q[2]==1 for q in l["ix"]): e[2]+=1; return d
    vt.selftest(c,"AmgPar",JP,par,corruptp)
    def describe(d): return {"agg":"aggregation with criterion %s/%s: wrong strong edges, aggregates or counts"%(d.get("crit"),d.get("norm")),"hier":"wrong hierarchy of %s levels"%d.get("levels"),"tr":"wrong transfer","par":"parameters read back are not the ones set or their defaults","cont":"wrong levels in a hierarchy or its copy"}[d["kind"]]
    vt.judge_all(c,"AmgAgg",JC,recs,describe,key=lambda d: d["kind"]+d.get("crit",""))
    def corrupt(d):
        if d["kind"]=="agg" and d["n"]>3 and len(d["map"])>3 and d["map"][0]==0 and d["map"][-1]>0: d["map"][-1]=0; d["map"][0]=1; return d
    vt.selftest(c,"AmgAgg",JC,recs,corrupt)
    c.extra["records"]=dict(Counter(d["kind"]+"/"+d.get("crit","")+"/"+d.get("norm","")+str(d.get("levels","")) for d in map(json.loads,recs)))
    c.extra["distributed"]=dict(Counter("np%d acc%d levels%d"%(d["np"],d["acc"],max(len(l) for l in d["lev"])) for d in map(json.loads,par)))
    c.assumptions=["aggregation: up to 9 vertices, integer entries, diagonals that are powers of two (thresholds are then exact)","hierarchies up to 14 block rows and 5 levels; distributed hierarchies (overlapping category) up to 16 block rows on up to 4 processes"]
if __name__=="__main__": vt.main("P17",run)
