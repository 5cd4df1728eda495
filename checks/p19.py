#!/usr/bin/env python3
"""P19: direct solver wrappers.  TLC explores the compressed column conversion of spec/Direct.tla and judges recorded histories."""
import sys, os, json
from collections import Counter
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"tools"))
import vt
def run(c):
    B=[(p,c.build("direct.cc",out="direct%d"%p,extra=["-DPART=%d"%p],opt="-O0" if p<3 else "-O1",bg=True),c.build("direct.cc",out="direct-san%d"%p,san=True,opt="-O0",extra=["-DPART=%d"%p],bg=True)) for p in (1,2,3,4)]
    n,m=(3,4) if c.thorough else (3,3)
    c.model("Direct",vt.cfgtext(dict(MaxN=n,MaxM=m,Mats="{}"),"INVARIANTS CursorOK StorageOK ResultOK\n",init="INIT CInit\nNEXT CNext\nCHECK_DEADLOCK FALSE\n"))
    c.model("Direct",vt.cfgtext(dict(MaxN=0,MaxM=0,Mats='{"a","b","c"}'),"INVARIANT LOK\n",init="INIT LInit\nNEXT LNext\nCHECK_DEADLOCK FALSE\n"))
    JC="INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxN=0\n MaxM=0\n Mats={}\nINVARIANT RecordOK\n"
    recs=[]
    todo=[t for p,h,hs in B for t in ((h,10*c.seed+p,25 if not c.thorough else 600),(hs,10*c.seed+1000+p,12 if not c.thorough else 200))]
    for exe,seed,n in todo:
        exe=exe.wait(); f=c.path("d%d.json"%seed); d=c.path("d%d"%seed); os.makedirs(d,exist_ok=True)
        r=c.run([exe,f,str(seed),str(n),d],timeout=(600 if c.thorough else 150))
        if r.rc!=0 or "RECORDS" not in r.out: c.violation("a history of a direct solver crashed (exit %d): %s"%(r.rc,r.err[-1500:]),{"seed":seed,"n":n})
        if os.path.exists(f): recs+=[l for l in open(f).read().splitlines() if l.endswith("}")]
    def describe(d): return "%s: the history contains a wrong conversion, answer or statistic"%d["type"]
    vt.judge_all(c,"Direct",JC,recs,describe,key=lambda d: d["type"])
    def corrupt(d):
        for s in d.get("steps",[]):
            if s["op"]=="apply" and s["x"]: s["x"][-1][0]+=1; return d
    vt.selftest(c,"Direct",JC,recs,corrupt)
    def corrupt2(d):
        for s in d.get("steps",[]):
            if s["op"]=="ccs" and s["nnz"]>1: s["v"][1][0]+=1; return d
    vt.selftest(c,"Direct",JC,recs,corrupt2)
    c.extra["records"]=dict(Counter(json.loads(l)["type"] for l in recs)); c.extra["steps"]=dict(Counter(s["op"] for l in recs for s in json.loads(l).get("steps",[])))
    c.assumptions=["matrices are diagonally dominant up to a permutation of block rows, with integer entries and solutions (rounding within 1e-6 of the integers)","up to 6 block rows","LDL: symmetric patterns; Cholmod: symmetric positive definite"]
if __name__=="__main__": vt.main("P19",run)
