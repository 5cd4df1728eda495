#!/usr/bin/env python3
"""P20: solver factory.  TLC explores spec/Factory.tla for eight operator types; every request is replayed into the real factories and
the object obtained is compared with the constructor call the specification says the configuration stands for."""
import sys, os, copy, re
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"tools"))
import vt
W=[("double","1","sequential"),("double","2","sequential"),("double","1","overlapping"),("double","1","nonoverlapping"),
   ("double","free","sequential"),("complex","1","sequential"),("float","1","sequential"),("double","scalar","sequential")]
def line(a):
    f=lambda d: " ".join("%s=%s"%(k,v) for k,v in sorted(d.items()) if v!="-")
    return "%s %s ; %s ; %s %s"%(a["op"],f(a["cfg"]),f(a["pcfg"]),a["rt"]," ".join(a["desc"]))
def compare(st,got): return st["out"]==got["out"] and (st["out"]=="err" and got["obs"]==[1] or got["obs"]==[1])
def split(tours,n=150):
    """long sequences of requests are cut, so that they run in parallel"""
    r=[]
    for t in tours:
        pre=[x for x in t if not x[1]]; show=[x for x in t if x[1]]
        for i in range(0,len(show),n): r.append(pre+show[i:i+n])
    return r
def run(c):
    T=c.thorough
    B=[c.build("factory.cc",out="factory%d"%w,opt="-O0",san=(w==1),extra=["-DWORLD=%d"%w]+(["-DREVERSED"] if w%2 else []),bg=True) for w in range(8)]
    def K(w,**k): return dict(dict(Field='"%s"'%W[w][0],Block='"%s"'%W[w][1],Cat='"%s"'%W[w][2],Ranks=1,Mode='"graph"',Depth=1),**k)
    G="VIEW View\nINVARIANTS Sound Released\nPROPERTIES Stable\nACTION_CONSTRAINTS EmitTR\n"
    graphs={}; rnd={}
    D=30
    def graph(k): return vt.tours_of(c,"Factory",vt.cfgtext(k,G))
    def random(w):
        b=c.simulate("Factory",vt.cfgtext(K(w,Mode='"random"',Depth=D),"INVARIANTS Sound Released EmitBEH\n"),(60 if not T else 1200)*(3 if w<4 else 1),D)
        u={str(x):x for x in b}; return [[(s,True) for s in x] for x in u.values()]
    with ThreadPoolExecutor(3) as ex:   # with two processes the direct solvers are refused
        g=list(ex.map(graph,[K(w) for w in range(8)]+[K(0,Mode='"ctor"'),K(2,Ranks=2),K(3,Ranks=2)]))
        graphs=dict(enumerate(g[:8])); ctor=g[8]; par={2:g[9],3:g[10]}
        rnd=dict(enumerate(ex.map(random,range(8))))
    exe=[h.wait() for h in B]
    for w in range(8):
        name="%s-%s-%s"%W[w]
        vt.replay(c,[exe[w]],split(graphs[w])+rnd[w],1,line,compare=compare,name=name)
    vt.replay(c,[exe[0]],split(ctor),1,line,compare=compare,name="constructors")
    for w in par:
        b=split(par[w],400)
        vt.replay(c,["mpirun","-np","2",exe[w]],b,1,line,compare=compare,name="two-processes-"+W[w][2],env=None)
    # self-test: a wrong expectation must be noticed
    for want,sub in (("jac","gs"),("cgsolver","gradientsolver"),("umfpack","superlu")):
        for t in graphs[0]:
            x=[s for s,_ in t if s["out"]=="ok" and s["a"]["desc"][0]==want and s["a"]["op"]!="ctor"]
            if x: break
        e=copy.deepcopy(x[0]); e["a"]["desc"][0]=sub
        ini=[s for s,_ in t if s["a"]["op"]=="init"][:1]
        if not vt.replay(c,[exe[0]],[[(ini[0],False)] + [(e,True)]],1,line,compare=compare,name="self",corrupt=True): raise vt.Error("self-test: corrupted expectation not noticed")
    n={}
    for w in range(8):
        for t in graphs[w]+rnd[w]:
            for s,show in t:
                if show: k=s["a"]["op"]+" "+s["out"]; n[k]=n.get(k,0)+1
    c.extra["requests"]=n; c.extra["operators"]=["/".join(x) for x in W]
    c.samples=[[line(s["a"]) for s,_ in rnd[w][0]][:4] for w in (0,1,3)]
    c.assumptions=["objects are identified by type, category, printed text and the bytes of their results on fixed right-hand sides",
      "numeric values of configuration entries are legal for the constructor (e.g. at least one level)","the default verbosity of the multigrid preconditioner is left open (documentation and code differ)"]
if __name__=="__main__": vt.main("P20",run)
