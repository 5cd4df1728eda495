#!/usr/bin/env python3
"""P14: owner/overlap/copy communication.  TLC explores spec/Comm.tla (every order of message delivery) and judges histories recorded from MPI processes."""
import sys, os, json
from collections import Counter
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"tools"))
import vt
OPS='{"copyOwnerToAll","copyCopyToAll","addOwnerOverlapToAll","addOwnerCopyToAll","addOwnerCopyToOwnerCopy"}'
def run(c):
    h=c.build("comm.cc",bg=True); hs=c.build("comm.cc",out="comm-san",san=True,bg=True)
    for np,ng,k in ((2,2,2),(3,1,2),(3,2,1)) if not c.thorough else ((2,2,3),(3,1,3),(3,2,2),(2,3,2),(4,1,2)):
        c.model("Comm",vt.cfgtext(dict(NP=np,NG=ng,MaxOps=k,OpsUsed=OPS),"INVARIANTS ResultIsDefined OwnerWins Untouched SumConsistent\n",init="INIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\n"))
    JC="INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n NP=1\n NG=1\n OpsUsed={}\n MaxOps=1\nINVARIANT RecordOK\n"
    recs=[]; K=1 if not c.thorough else 12
    for exe,np,cnt,eng in ((hs,1,20,1),(h,2,250,2),(hs,2,100,1),(h,3,300,2 if c.thorough else 1),(h,4,150,1 if not c.thorough else 1)):
        f=c.path("c-%d-%d.json"%(np,len(recs))); r=c.run([exe.wait(),f,str(c.seed+np),str(cnt*K),str(eng)],np=np,timeout=(600 if c.thorough else 150))
        if r.rc!=0 or "RECORDS" not in r.out: c.violation("communication of %d processes crashed or hung (exit %d): %s"%(np,r.rc,r.err[-1200:]),{"np":np,"seed":c.seed+np,"cnt":cnt*K})
        else: recs+=open(f).read().splitlines()
    def describe(d):
        if d["kind"]=="lookup": return "the lookup of global indices by local ones (%s) is not the inverse of the local numbering"%d["op"]
        if d["kind"]=="missing": return "remote information about an unknown index or attribute is not refused"
        return "history of %d processes (set up as %d): an entry does not hold the value the operation defines (%s)"%(d["np"],d["mode"],",".join(sorted({s["op"] for s in d["steps"]})) if not d["err"] else d["err"])
    vt.judge_all(c,"Comm",JC,recs,describe)
    def corrupt(d):
        if d["kind"]=="hist" and d["steps"] and d["ng"]:
            s=d["steps"][-1]
            for p in range(d["np"]):
                for g in range(d["ng"]):
                    if d["at"][p][g]: s["res"][p][g]+=1; return d
    vt.selftest(c,"Comm",JC,recs,corrupt)
    ds=[json.loads(l) for l in recs]; c.extra["records"]=dict(Counter("%s/%s"%(d["kind"],d.get("np")) for d in ds)); c.extra["operations"]=dict(Counter(s["op"] for d in ds if d["kind"]=="hist" for s in d["steps"]))
    c.assumptions=["every global index has exactly one owner; index sets are not changed after the first communication (interfaces are built once)","up to 4 MPI processes on one machine; message order is the scheduler's"]
if __name__=="__main__": vt.main("P14",run)
