#!/usr/bin/env python3
"""P21: flat traversal, dimension queries and text output of nested containers.  TLC explores the traversal machine of spec/Flat.tla and judges recorded traversals and outputs."""
import sys, os, json
from collections import Counter
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"tools"))
import vt
def run(c):
    b={p:c.build("flatio.cc",out="flatio%d"%p,san=p!=9,opt="-O0",extra=["-DPART=%d"%p],bg=True) for p in (0,1,9)}
    c.model("Flat",vt.cfgtext(dict(MaxB=2,Depth=3 if c.thorough else 2),"INVARIANTS Numbered Complete\n",init="INIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\n"))
    JC="INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxB=1\n Depth=0\nINVARIANT RecordOK\n"
    recs=[]; n=20 if not c.thorough else 400
    for p,np in ((0,0),(1,0),(9,1),(9,2),(9,3)):
        f=c.path("f%d-%d.json"%(p,np)); sc=c.path("scratch%d"%p); os.makedirs(sc,exist_ok=True)
        r=c.run([b[p].wait(),f,str(c.seed+17*np),str(n if p!=9 else 2*n),sc],timeout=(600 if c.thorough else 150),**({"np":np} if np else {}))
        if r.rc!=0 or "RECORDS" not in r.out: c.violation("a flat traversal or text output crashed (exit %d): %s"%(r.rc,r.err[-1500:]),{"part":p,"np":np,"seed":c.seed,"n":n})
        if os.path.exists(f): recs+=[l for l in open(f).read().splitlines() if l.endswith("}")]
    def describe(d): return "%s of %s: wrong traversal, size or output"%(d["op"],d["type"])
    vt.judge_all(c,"Flat",JC,recs,describe,key=lambda d: d["type"]+"/"+d["op"])
    def corrupt(d):
        if d["kind"]=="mat" and d["op"]=="matlab" and d["lines"]: d["lines"][0][0]+=1; return d
        if d["kind"]=="vec" and d["op"]=="flat" and len(d["seq"])>1: d["seq"][0][0]+=1; return d
    vt.selftest(c,"Flat",JC,recs,corrupt)
    c.extra["records"]=dict(Counter(json.loads(l)["op"]+"/"+json.loads(l)["type"] for l in recs))
    c.assumptions=["blocks of a sparse matrix have one common size, as documented for the traversal","nested dynamic blocks: every block row and column holds an entry","integer values in the text output; rounding to the requested digits against printf"]
if __name__=="__main__": vt.main("P21",run)
