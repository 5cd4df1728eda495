#!/usr/bin/env python3
"""P16: redistribution of matrices and vectors.  TLC explores spec/Redist.tla and judges redistributions recorded from MPI processes."""
import sys, os, json
from collections import Counter
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"tools"))
import vt
def run(c):
    h=c.build("redist.cc",bg=True); hs=c.build("redist.cc",out="redist-san",san=True,opt="-O0",bg=True)
    for np,ng in ((2,3),) if not c.thorough else ((2,3),(3,3)):
        c.model("Redist",vt.cfgtext(dict(NP=np,NG=ng),"INVARIANTS OwnedOnce RowsComplete NoMore Symmetric\n",init="INIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\n"))
    JC="INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n NP=1\n NG=1\nINVARIANT RecordOK\n"
    recs=[]; K=1 if not c.thorough else 15
    for exe,np,cnt in ((hs,2,12),(h,1,4),(h,3,30),(hs,3,8),(h,4,25)):
        f=c.path("r-%d-%d.json"%(np,len(recs))); r=c.run([exe.wait(),f,str(c.seed+np),str(cnt*K)],np=np,timeout=(600 if c.thorough else 150),env={"VT_X":"1"})
        if r.rc!=0 or "RECORDS" not in r.out: c.violation("redistribution on %d processes crashed or hung (exit %d): %s"%(np,r.rc,r.err[-1500:]),{"np":np,"seed":c.seed+np,"cnt":cnt*K})
        if os.path.exists(f): recs+=[l for l in open(f).read().splitlines() if l.endswith("}")]
    def describe(d): return "%s of a %s matrix on %d processes: the redistributed matrix or vectors are not the original ones"%(d["kind"],"non-overlapping" if d["nov"] else "overlapping",d["np"])
    vt.judge_all(c,"Redist",JC,recs,describe,key=lambda d: d["kind"]+str(d["nov"]))
    def corrupt(d):
        if d["kind"]=="build" and d["ng"]: d["u"][[p for p in range(d["np"]) if d["at"][p][0]==1][0]][0]+=1; return d
    vt.selftest(c,"Redist",JC,recs,corrupt)
    c.extra["records"]=dict(Counter("%s/%s"%(json.loads(l)["kind"],"nov" if json.loads(l)["nov"] else "ov") for l in recs))
    c.assumptions=["global sparsity pattern symmetric with full diagonal; owner rows hold every column of the pattern; every unknown has one owner","up to 4 MPI processes"]
if __name__=="__main__": vt.main("P16",run)
