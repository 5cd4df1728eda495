#!/usr/bin/env python3
"""P03: matrix-vector products and norms.  spec/MatVec.tla is model-checked (machine), its small instances and random
structures are run through the real classes (harness/matvec.cc), and every recorded result is judged by TLC."""
import sys, os, json
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"tools"))
import vt
from concurrent.futures import ThreadPoolExecutor
MC="INIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxR=%d MaxC=%d\nINVARIANTS MTerminal EmitCases\nPROPERTIES MLocal\n"
JC="INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxR=1 MaxC=1\nINVARIANT RecordOK\n"
def run(c):
    hs=[c.build("matvec.cc",out="matvec%d"%k,extra=["-DPART=%d"%k],bg=True) for k in range(4)]
    t=c.model("MatVec",MC%((2,2) if not c.thorough else (2,3)))
    cases=t.printed("CASE"); f=c.path("small.txt")
    with open(f,"w") as o:
        for x in cases: o.write("%d %d %d %d %s\n"%(x["n"],x["m"],x["o"],len(x["P"])," ".join("%d %d"%tuple(p) for p in x["P"])))
    I=(24 if not c.thorough else 400)
    exes=[h.wait() for h in hs]
    def one(k):
        rec=c.path("rec%d.json"%k); r=c.run([exes[k],rec,str(c.seed*10+k),str(I*(3 if k==3 else 1)),f],timeout=(600 if c.thorough else 150))
        return k,rec,r
    recs=[]
    with ThreadPoolExecutor(4) as ex:
        for k,rec,r in ex.map(one,range(4)):
            if r.rc!=0 or "RECORDS" not in r.out: c.violation("products crashed or threw (part %d, exit %d): %s"%(k,r.rc,r.err[-1500:]),{"part":k,"seed":c.seed})
            for l in r.out.splitlines():
                if l.startswith("MISSING"): c.extra.setdefault("not_offered",[]).append(l[8:])
            if os.path.exists(rec): recs+=open(rec).read().splitlines()
    vt.judge_all(c,"MatVec",JC,recs,lambda d: "%s %s: not the algebraic result"%(d["type"],d.get("op",d["kind"])))
    def corrupt(d):
        if d["kind"]=="prod" and d["y2"]: d["y2"][0][0]+=1; return d
    vt.selftest(c,"MatVec",JC,recs,corrupt)
    def corrupt(d):
        if d["kind"]=="norm" and d["inf"]>0: d["inf"]+=1; return d
    vt.selftest(c,"MatVec",JC,recs,corrupt)
    n={}
    for l in recs: d=json.loads(l); k=d["type"]+"/"+d.get("op",d["kind"]); n[k]=n.get(k,0)+1
    c.extra["records_by_type_and_op"]=n
if __name__=="__main__": vt.main("P03",run)
