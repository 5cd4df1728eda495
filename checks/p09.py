#!/usr/bin/env python3
"""P09: reported convergence is true.  TLC explores the restart machine of spec/ConvergenceTruth.tla and judges recorded solves."""
import sys, os, json
from collections import Counter
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"tools"))
import vt
def run(c):
    h=c.build("convtruth.cc",bg=True)
    c.model("ConvergenceTruth",vt.cfgtext(dict(MaxIt=8 if not c.thorough else 14,MaxRestart=5 if not c.thorough else 9),"INVARIANTS FreshBasis Limits\n",init="INIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\n"))
    f=c.path("conv.json"); r=c.run([h.wait(),f,str(c.seed),str(400 if not c.thorough else 8000)],timeout=(600 if c.thorough else 150))
    if r.rc!=0 or "RECORDS" not in r.out: c.violation("a solver crashed (exit %d): %s"%(r.rc,r.err[-1500:]),{"seed":c.seed})
    recs=open(f).read().splitlines(); JC="INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxIt=1\n MaxRestart=1\nINVARIANT RecordOK\n"
    def desc(d):
        if d["kind"]=="claim": return "%s (%s): what it reports is not true"%(d["sol"],d["field"])
        return "residual curves (%s)"%d["field"]
    vt.judge_all(c,"ConvergenceTruth",JC,recs,desc)
    def corrupt(d):
        if d["kind"]=="claim" and d["conv"] and d["req"]>-20000: d["tru"]=d["req"]+200; return d
    vt.selftest(c,"ConvergenceTruth",JC,recs,corrupt)
    c.extra["records"]=dict(Counter((lambda d: d["kind"]+"/"+d.get("sol","-")+("/converged" if d.get("conv") else ""))(json.loads(l)) for l in recs))
    c.assumptions=["double precision: norms are compared as 1000*log2 with a slack of 25 (1.7 percent), reductions beyond 2^-28 are not judged",
      "the promised norm is the 2-norm of the residual, of the preconditioned residual for left preconditioned GMRes, and the preconditioner norm for MINRES"]
if __name__=="__main__": vt.main("P09",run)
