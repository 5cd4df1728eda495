#!/usr/bin/env python3
"""P04: matrix algebra.  spec/MatAlg.tla is model-checked, its product instances and random structures are run through the
real classes (harness/matalg.cc, address sanitizer) and every recorded result is judged by TLC."""
import sys, os, json
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"tools"))
import vt
from concurrent.futures import ThreadPoolExecutor
MC="INIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\nCONSTANTS Dims <- %s\nINVARIANTS MTerminal EmitCases\n"
JC="INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\nCONSTANTS Dims <- DimsQ\nINVARIANT RecordOK\n"
def run(c):
    hs=[c.build("matalg.cc",out="matalg%d"%k,san=True,opt="-O0",extra=["-DPART=%d"%k],bg=True) for k in range(4)]
    t=c.model("MatAlg",MC%("DimsT" if c.thorough else "DimsQ"))
    cases=t.printed("CASE"); f=c.path("small.txt")
    with open(f,"w") as o:
        for x in cases:
            P=lambda p: "%d %s"%(len(p)," ".join("%d %d"%tuple(q) for q in p))
            o.write("%d %d %d %d %s %s\n"%({"AB":0,"AtB":1,"ABt":2}[x["op"]],x["d"][0],x["d"][1],x["d"][2],P(x["PA"]),P(x["PB"])))
    I=120 if not c.thorough else 2000
    exes=[h.wait() for h in hs]
    def one(k):
        rec=c.path("rec%d.json"%k); r=c.run([exes[k],rec,str(c.seed*10+k),str(I),f],timeout=(600 if c.thorough else 150))
        return k,rec,r
    recs=[]
    with ThreadPoolExecutor(4) as ex:
        for k,rec,r in ex.map(one,range(4)):
            if r.rc!=0 or "RECORDS" not in r.out: c.violation("matrix algebra crashed or threw (part %d, exit %d): %s"%(k,r.rc,r.err[-1500:]),{"part":k,"seed":c.seed})
            if os.path.exists(rec): recs+=[l for l in open(rec).read().splitlines() if l.endswith("}")]
    vt.judge_all(c,"MatAlg",JC,recs,lambda d: "%s %s/%s: not the algebraic result"%(d["type"],d["kind"],d.get("op","")))
    def c1(d):
        if d["kind"]=="prod" and d["C"]: d["C"].pop(); return d
    def c2(d):
        if d["kind"]=="sum" and d["A2"]: d["A2"][-1]["re"]+=1; return d
    vt.selftest(c,"MatAlg",JC,recs,c1); vt.selftest(c,"MatAlg",JC,recs,c2)
    n={}
    for l in recs: d=json.loads(l); k=d["type"]+"/"+d["kind"]+"/"+str(d.get("op","")); n[k]=n.get(k,0)+1
    c.extra["records_by_type_and_op"]=n
if __name__=="__main__": vt.main("P04",run)
