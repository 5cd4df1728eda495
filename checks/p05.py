#!/usr/bin/env python3
"""P05: vector containers.  TLC explores spec/Vectors.tla; behaviours are replayed into the real classes."""
import sys, os, json, copy
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"tools"))
import vt
ORD={"ctor":["n"],"ctorcap":["n","c"],"ctorbs":["n","w"],"list":["vs"],"copyctor":["p"],"movector":["p"],"assign":["p"],"moveassign":["p"],"swap":["p"],
 "reserve":["n"],"resize":["n"],"resizebs":["n","w"],"create":["ws"],"write":["i","j","v"],"fill":["v"],"scale":["v"],"add":["p"],"sub":["p"],"axpy":["p","v"],"dot":["p"],
 "bfill":["i","v"],"bscale":["i","v"],"bassign":["p","i","k"],"badd":["p","i","k"],"bvconv":["p","i","k"]}
def line(a):
    f=[a["op"],a["o"]]
    for k in ORD.get(a["op"],[]): f+= a[k] if isinstance(a[k],list) else [a[k]]
    return " ".join(map(str,f))
BFS="INVARIANTS TypeOK\nPROPERTIES RefusalHarmless SurvivorsKeep Isolation\nVIEW View\nCONSTRAINT SmallVals\nACTION_CONSTRAINT EmitTransitions\n"
SIM="INVARIANTS TypeOK EmitAtDepth\n"
def run(c):
    h=c.build("vecs.cc",san=True,opt="-O0",bg=True); ha=c.build("vecalg.cc",bg=True)
    D=dict(Objs="{1,2}",MaxN=2,MaxB=1,Vals="<- ValsB",Family="{}",Random="FALSE",Depth=100)
    S=dict(Objs="{1,2,3}",MaxN=4,MaxB=4,Vals="<- ValsA",Family="{}",Random="TRUE",Depth=40 if not c.thorough else 80)
    lim=None if c.thorough else 12000
    tours={k:vt.tours_of(c,"Vectors",vt.cfgtext(dict(D,Kind='"%s"'%k),BFS),lim) for k in("bv","vbv")}
    sims={k:[[(x,True) for x in b] for b in c.simulate("Vectors",vt.cfgtext(dict(S,Kind='"%s"'%k),SIM),1200 if not c.thorough else 12000,S["Depth"])] for k in("bv","vbv")}
    exe=h.wait()
    for k in("bv","vbv"):
        vt.replay(c,[exe,k+"-double"],tours[k],2,line,name=k+"-double")
        for b in ["double","f2"]+(["bv"] if k=="bv" else []): vt.replay(c,[exe,k+"-"+b],sims[k],3,line,name=k+"-"+b)
        vt.count_calls(c,sims[k])
        for b in sims[k]:
            w=[i for i,(s,_) in enumerate(b) if s["out"]=="ok" and any(o[0]=="ok" and o[1] and o[1][0] and o[1][0][0]!=-9999 for o in s["obs"])]
            if w:
                bb=copy.deepcopy(b); o=[o for o in bb[w[-1]][0]["obs"] if o[0]=="ok" and o[1] and o[1][0] and o[1][0][0]!=-9999][0]; o[1][0][0]+=1
                if not vt.replay(c,[exe,k+"-double"],[bb],3,line,name=k,corrupt=True): raise vt.Error("self-test: corrupted expectation not noticed")
                break
    # arithmetic, products and norms of every vector type, judged by TLC
    rec=c.path("alg.json"); r=c.run([ha.wait(),rec,str(c.seed),str(40 if not c.thorough else 800)],timeout=(600 if c.thorough else 150))
    if r.rc!=0 or "RECORDS" not in r.out: c.violation("vector arithmetic crashed or threw (exit %d): %s"%(r.rc,r.err[-1500:]),{"seed":c.seed})
    recs=open(rec).read().splitlines(); JC="INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\nCONSTANT Dummy=0\nINVARIANT RecordOK\n"
    vt.judge_all(c,"VecAlg",JC,recs,lambda d: "%s %s: not the algebraic result"%(d["type"],d["op"]))
    def corrupt(d):
        if d["op"]=="norms" and d["x"]: d["n"][1]+=1; return d
    vt.selftest(c,"VecAlg",JC,recs,corrupt)
    c.samples=[[line(s["a"]) for s,_ in sims[k][0]] for k in sims]
    c.assumptions=["compiled with DUNE_ISTL_WITH_CHECKING; address sanitizer on","values written by ctor(n), resize(n,bs) and the creation of variable blocks are unspecified"]
if __name__=="__main__": vt.main("P05",run)
