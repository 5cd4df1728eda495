#!/usr/bin/env python3
"""P07: solver control.  TLC explores spec/SolverContract.tla; the behaviours are replayed into all solvers in a scripted environment."""
import sys, os, copy
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"tools"))
import vt
def line(a):
    if a["op"]=="new": return "new %d %d"%(a["maxit"],a["r0"])
    return "solve %s %d %s"%(a["kind"],a["r"]," ".join(map(str,a["sc"])))
def behs(bs,per,kry=False):
    r=[]
    for b in bs:
        st=[({"a":{"op":"new","maxit":b["maxit"],"r0":b["r0"]},"out":"ok","obs":[],"extra":[]},False)]
        for c in b["calls"]:
            st.append(({"a":{"op":"solve","kind":c["kind"],"r":c["r"],"sc":c["sc"]},"out":c["out"],"obs":dict(c,per=per,kry=kry),"extra":[]},True))
        r.append(st)
    return r
def compare(st,got):
    e=st["obs"]; g=got["obs"][0]
    if g["out"]!=e["out"] or g["conv"]!=e["conv"] or not g["order"] or g["pre"]!=1: return False
    if not e["kry"] and g["used"]!=len(e["sc"]): return False
    # verbosity 0: silent, 1: says something, 2: one line for each defect
    if (g["verb"]==0 and g["said"]) or (g["verb"]>0 and not g["said"]) or (g["verb"]<2 and g["rows"]): return False
    if g["verb"]==2 and g["rows"]!=[[2*k//e["per"],10*n if n!=-9003 else -7777] for k,n in e["rows"]]: return False
    if e["out"]=="abort": return g["post"]<=1
    if g["post"]!=1: return False
    its=e["half"]/e["per"]
    if int(its)!=g["its"]: return False                      # the iteration count is an integer: half steps are rounded down
    if e["red"]!=-9999:
        if g["red"]!=e["red"]: return False
        if its>0 and abs(g["rate"]*its-100*e["red"])>its+1: return False
    return True
def run(c):
    h=c.build("solverctl.cc",opt="-O0",bg=True,san=True)
    EX="INVARIANTS Contract Once Emit\n"
    T=c.thorough
    base=dict(MaxIts="{0,1,2,3}",Reds="{0,3}",MaxCalls=1,Monotone="FALSE",Random="FALSE")
    jobs={"full":dict(base,Per=1,Norms0="<- Norms0A",Norms="<- NormsA"),
          "half":dict(base,Per=2,Norms0="<- Norms0B" if not T else "<- Norms0A",Norms="<- NormsH",MaxIts="{0,1,2}"),
          "full2":dict(base,Per=1,Norms0="<- Norms0B",Norms="<- NormsB",MaxCalls=2 if not T else 3,MaxIts="{1}"),
          "half2":dict(base,Per=2,Norms0="<- Norms0B",Norms="<- NormsB",MaxCalls=2,MaxIts="{1}"),
          "kry":dict(base,Per=1,Norms0="<- Norms0K",Norms="<- NormsKN",Monotone="TRUE",MaxIts="{0,1,2,3}",Reds="{3}"),
          "kry2":dict(base,Per=1,Norms0="<- Norms0K",Norms="<- NormsKN",Monotone="TRUE",MaxCalls=2,MaxIts="{1}",Reds="{2,5}")}
    B={k:c.model("SolverContract",vt.cfgtext(v,EX)).printed("BEH") for k,v in jobs.items()}
    N=300 if not T else 6000
    sim=dict(base,MaxIts="{5,9,12}",Reds="{3,6}",MaxCalls=3,Random="TRUE")
    def S(**k):
        r=c.simulate("SolverContract",vt.cfgtext(dict(sim,**k),EX),N,80); u={}
        for x in r: u[str(x)]=x
        return list(u.values())
    B["fulls"]=S(Per=1,Norms0="<- NormsL",Norms="<- NormsL")+S(Per=1,Norms0="<- NormsB",Norms="<- NormsB"); B["halfs"]=S(Per=2,Norms0="<- NormsL",Norms="<- NormsL")
    B["krys"]=S(Per=1,Norms0="<- Norms0K",Norms="<- NormsK",Monotone="TRUE",MaxIts="{4,5,6}",Reds="{7,11}")
    for k,b in B.items(): c.log(k,len(b),"behaviours")
    exe=h.wait(); n=0
    full=behs(B["full"],1)+behs(B["full2"],1)+behs(B["fulls"],1); half=behs(B["half"],2)+behs(B["half2"],2)+behs(B["halfs"],2)
    kry=behs(B["kry"],1,True)+behs(B["kry2"],1,True)+behs(B["krys"],1,True)
    runs=[("loop",0,full),("gradient",0,full),("cg",0,full),("gpcg",10,full),("rfcg",10,full),("cfcg",10,full),("bicgstab",0,half),("minres",0,kry),("gmres",30,kry),("fgmres",30,kry)]
    long_=behs(B["fulls"],1)+behs(B["full2"],1)
    runs+=[(s,p,long_) for s,p in (("cg",1),("gpcg",1),("gpcg",2),("gpcg",3),("rfcg",0),("rfcg",1),("rfcg",2),("cfcg",0),("cfcg",1),("cfcg",3))]
    for s,p,b in runs:
        vt.replay(c,[exe,s,str(p)],b,1,line,compare=compare,name="%s(%d)"%(s,p))
    # self-test: a wrong expectation must be noticed
    bb=[copy.deepcopy(full[-1])]; bb[0][-1][0]["obs"]["conv"]=not bb[0][-1][0]["obs"]["conv"]
    if not vt.replay(c,[exe,"cg","0"],bb,1,line,compare=compare,name="self",corrupt=True): raise vt.Error("self-test: corrupted expectation not noticed")
    c.samples=[[line(s["a"]) for s,_ in b[-1]] for b in (full,half,kry)]
    c.extra["solver_configurations"]=["%s(%d)"%(s,p) for s,p,_ in runs]
    c.assumptions=["defect norms are powers of two, reductions 0.75*2^-r (no ties between defect and threshold)",
      "minimal residual methods: defect histories prescribed by a symmetric tridiagonal operator, monotone drops of 2^-1..2^-8"]
if __name__=="__main__": vt.main("P07",run)
