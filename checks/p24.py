#!/usr/bin/env python3
"""P24: block tridiagonal and block diagonal matrices.  TLC explores the Thomas elimination of spec/Thomas.tla and judges recorded histories."""
import sys, os, json
from collections import Counter
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"tools"))
import vt
def run(c):
    h=c.build("thomas.cc",bg=True); hs=c.build("thomas.cc",out="thomas-san",san=True,opt="-O0",extra=["-DDUNE_ISTL_WITH_CHECKING"],bg=True)
    vals="{<<0,0>>,<<1,0>>,<<2,0>>,<<0,1>>}" if c.thorough else "{<<0,0>>,<<1,0>>,<<0,1>>}"
    c.model("ThomasMC",vt.cfgtext(dict(P=3,N0=3,Vals="<- V4" if c.thorough else "<- V3"),"INVARIANTS Solved BreakIff Partial\n",init="INIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\n"))
    JC="INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n P=30011\n N0=1\n Vals={}\nINVARIANT RecordOK\n"
    recs=[]
    for exe,seed,n in ((h.wait(),c.seed,60 if not c.thorough else 1500),(hs.wait(),c.seed+1000,40 if not c.thorough else 600)):
        f=c.path("t%d.json"%seed); r=c.run([exe,f,str(seed),str(n)],timeout=(600 if c.thorough else 150))
        if r.rc!=0 or "RECORDS" not in r.out: c.violation("a history of a tridiagonal or diagonal matrix crashed (exit %d): %s"%(r.rc,r.err[-1500:]),{"seed":seed,"n":n})
        if os.path.exists(f): recs+=[l for l in open(f).read().splitlines() if l.endswith("}")]
    def describe(d): return "%s: the history contains a wrong size, structure, value, inverse or solution"%d["type"]
    vt.judge_all(c,"Thomas",JC,recs,describe,key=lambda d: d["type"])
    def corrupt(d):
        for s in d.get("steps",[]):
            if s["op"]=="solve" and s["out"]=="ok" and s["x"] and d["w"]==1: s["x"][0][0]=(s["x"][0][0]+1)%30011; return d
    vt.selftest(c,"Thomas",JC,recs,corrupt)
    c.extra["records"]=dict(Counter(json.loads(l)["type"] for l in recs)); c.extra["steps"]=dict(Counter(s["op"]+"/"+s["out"] for l in recs for s in json.loads(l).get("steps",[])))
    c.assumptions=["systems whose elimination breaks down are not constrained","up to 9 block rows, values in GF(30011^2)"]
if __name__=="__main__": vt.main("P24",run)
