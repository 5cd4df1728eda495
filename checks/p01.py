#!/usr/bin/env python3
"""P01/P02: BCRSMatrix life cycle.  TLC explores spec/BCRSMatrix.tla; every transition of the small instances and
simulated long behaviours are replayed into the real class (harness/bcrs.cc) and compared call by call."""
import sys, os, json
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"tools"))
import vt
UNDEF=-9999
def cfg(c,**k):
    d=dict(Objs="{1}",MaxN=2,MaxM=2,MinDim=0,ModeSet='{"random"}',CapSet="{0}",AvgSet="{1,2}",BufSet="{0,100}",HowSet='{"random","randomnnz","rowwise","rowwisennz","implicit"}',SlackSet="{0,1}",Vals="{3}",Random="FALSE",Depth=100,Family='{"build"}')
    extra=k.pop("extra"); d.update(k)
    return "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"+"".join((" %s %s\n" if str(v).startswith("<-") else " %s=%s\n")%(k,v) for k,v in d.items())+extra
BFS="INVARIANTS TypeOK RowsFit\nPROPERTIES RefusalHarmless PatternStable Isolation\nVIEW View\nACTION_CONSTRAINT EmitTransitions\n"
SIM="INVARIANTS TypeOK RowsFit EmitAtDepth\n"
def line(a):
    op=a["op"]; f=[op,a["o"]]
    if op=="ctor": f+=[a["n"],a["m"],a["cap"],a["mode"]]
    elif op=="ctorimp": f+=[a["n"],a["m"],a["avg"],a["buf"]]
    elif op=="setmode": f+=[a["mode"]]
    elif op=="setsize": f+=[a["n"],a["m"],a["cap"]]
    elif op=="setimp": f+=[a["avg"],a["buf"]]
    elif op in("rowsize","incsize"): f+=[a["i"],a["s"]]
    elif op=="addindex": f+=[a["i"],a["j"]]
    elif op=="setindices": f+=[a["i"],1 if a["sorted"] else 0]+list(a["js"])
    elif op=="insert": f+=[a["j"]]
    elif op in("entry","entryadd","write"): f+=[a["i"],a["j"],a["v"]]
    elif op in("fill","scale"): f+=[a["v"]]
    elif op=="axpy": f+=[a["p"],a["v"]]
    elif op in("copyctor","assign"): f+=[a["p"]]
    elif op=="build": f+=[a["n"],a["m"],a["how"],a["slack"]]+[x for p in sorted(a["pat"]) for x in p]
    return " ".join(map(str,f))
def same(exp,got):
    """expected vs observed; undefined values match anything"""
    if exp==["spoiled"]: return True
    if isinstance(exp,list):
        return isinstance(got,list) and len(exp)==len(got) and all(same(x,y) for x,y in zip(exp,got))
    if exp==UNDEF: return isinstance(got,int)
    return exp==got
def compare(step,got):
    out=step["out"]
    if out=="any":
        if got["out"]=="exhausted": return True      # buffer too small: permitted; object is unusable afterwards
        if step["a"]["op"]=="createbegin" and got["out"]=="err": return same(step["obs"],got["obs"])
        return got["out"]=="ok" and same(step["obs"],got["obs"])
    if out=="err":
        if got["out"]!="err": return False
        e=step["obs"]
        return all(same(x,y) or x[:1]!=["built"] and y[:1]!=["built"] for x,y in zip(e,got["obs"])) if step["a"]["op"] in("setsize","next") else same(e,got["obs"])
    return got["out"]=="ok" and same(step["obs"],got["obs"]) and (not step["extra"] and not got["extra"] or same(step["extra"],got["extra"]))
def replay(c,exe,blk,behs,K,corrupt=False):
    from concurrent.futures import ThreadPoolExecutor
    n=1 if corrupt else min(vt.NCPU,max(1,len(behs)//20))
    with ThreadPoolExecutor(n) as ex: return sum(ex.map(lambda i: replay1(c,exe,blk,behs[i::n],K,corrupt,i),range(n)))
def replay1(c,exe,blk,behs,K,corrupt,part):
    """behs: list of list of (step,show)."""
    scr=c.path("script-%s-%d.txt"%(blk,part))
    with open(scr,"w") as f:
        for n,b in enumerate(behs):
            f.write("B %d %d\n"%(n,K))
            for s,show in b: f.write(("!" if show else "")+line(s["a"])+"\n")
    frm=0; crashes=0; bad=0; checked=0
    while frm<len(behs):
        r=c.run([exe,blk,scr,str(frm)],timeout=(240 if c.thorough else 150))
        cur=-1; k=0
        for l in r.out.splitlines():
            if l.startswith("B "): cur=int(l[2:]); exp=[x for x in behs[cur] if x[1]]; k=0; dead=False; continue
            if l=="END": continue
            if l.startswith("L ") and not corrupt:
                bad+=1
                if bad<=3: c.violation("block %s: %s bytes remain in use after every object of the history is gone"%(blk,l[2:]),{"block":blk,"calls":[line(s["a"]) for s,_ in behs[cur]]})
                continue
            if dead: continue
            try: got=json.loads(l)
            except ValueError: continue
            st=exp[k][0]; k+=1; checked+=1
            if not compare(st,got):
                dead=True; bad+=1
                if corrupt: return bad
                if bad<=3: c.violation("block %s: after call '%s' expected %s %s %s, observed %s"%(blk,line(st["a"]),st["out"],st["obs"],st["extra"],l),
                            {"block":blk,"calls":[line(s["a"]) for s,_ in behs[cur]],"failed_call":line(st["a"])})
        if r.rc==0 and r.out.rstrip().endswith("END"): break
        if cur<0: raise vt.Error("harness did not start: "+r.err[-2000:])
        crashes+=1; bad+=1
        if crashes<=2: c.violation("block %s: crash/hang (exit %d) while replaying a legal history: %s"%(blk,r.rc,r.err[-1500:]),{"block":blk,"calls":[line(s["a"]) for s,_ in behs[cur]]})
        if crashes>3 or bad>20: break
        frm=cur+1
    c.traces+=len(behs)
    return bad
def run(c,fam):
    h=c.build("bcrs.cc",san=True,opt="-O0",bg=True)
    tours=[]; sims=[]
    if fam=="P01":
        conf=[dict(ModeSet='{"random"}',CapSet="{0,3}",MinDim=2),dict(ModeSet='{"row_wise"}',CapSet="{0,3}",MinDim=2),
              dict(ModeSet='{"implicit"}',MinDim=2),dict(ModeSet='{"implicit","random","row_wise","unknown"}',MaxN=1,MaxM=1,CapSet="{0,1}",AvgSet="{0,1,2}")]
        if c.thorough: conf+=[dict(ModeSet='{"random"}',CapSet="{0,4}",MinDim=2,MaxM=3),dict(ModeSet='{"row_wise"}',CapSet="{0,5}",MinDim=2,MaxN=3,MaxM=3),
                              dict(ModeSet='{"implicit"}',MinDim=2,MaxM=3,AvgSet="{1}",BufSet="{0,100}")]
        simk=dict(Objs="{1,2}",MaxN=4,MaxM=5,ModeSet='{"implicit","random","row_wise","unknown"}',CapSet="{0,4,8,14,20}",AvgSet="{0,1,2,3}",BufSet="{0,50,100,250}",Vals="<- ValsA",Random="TRUE",Family='{"build","write"}')
    else:
        q=dict(Objs="{1,2}",MaxN=1,MaxM=2,MinDim=1,Vals="<- ValsC",Family='{"quick","copy","write"}',small=1)
        conf=[dict(q,HowSet='{"random"}',SlackSet="{1}"),dict(q,HowSet='{"rowwise"}',SlackSet="{0}")]
        if c.thorough: conf=[dict(q,HowSet='{"%s","%s"}'%(a,b)) for a in ("random","rowwise") for b in ("rowwisennz","implicit","randomnnz")]
        simk=dict(Objs="{1,2,3}",MaxN=3,MaxM=4,ModeSet='{"row_wise"}',Vals="<- ValsB",Random="TRUE",Family='{"quick","write","copy"}')
    K=1 if fam=="P01" else 2
    for k in conf:
        k=dict(k); small=k.pop("small",0)
        t=c.model("BCRSMatrix",cfg(c,extra=BFS+("CONSTRAINT SmallVals\n" if small else ""),**k),args=["-fp","7"])
        tr=[(x["s"],x,x["out"],0,0,x["d"]) for x in t.printed("TR")]
        seen=set(); tr2=[]
        for x in tr:
            key=(x[0],json.dumps(x[1]["a"],sort_keys=True))
            if key not in seen: seen.add(key); tr2.append(x)
        init=tr[0][0]
        tt=[[(e[1],show) for e,show in tour] for tour in vt.graph_tours(tr2,init)]
        tours+=tt
        c.log("%d transitions, %d behaviours"%(len(tr2),len(tt)))
    nsim=(600 if not c.thorough else 8000); depth=40 if not c.thorough else 80
    sims=[[(x,True) for x in b] for b in c.simulate("BCRSMatrix",cfg(c,extra=SIM,Depth=depth,**simk),nsim,depth)]
    c.log("%d simulated behaviours"%len(sims))
    exe=h.wait()
    KS=len(simk["Objs"].split(","))
    if tours: replay(c,exe,"f11" if fam=="P01" else "double",tours,K)
    for blk in (["double","f23","dyn"] if not c.thorough else ["double","f11","f23","dyn"]): replay(c,exe,blk,sims,KS)
    # the comparison must notice a wrong expectation
    import copy
    for b in sims:
        w=[i for i,(s,_) in enumerate(b) if any(o[0]=="built" and o[3]>0 for o in s["obs"]) and s["out"]=="ok"]
        if w:
            bb=copy.deepcopy(b); o=[o for o in bb[w[-1]][0]["obs"] if o[0]=="built" and o[3]>0][0]; row=[r for r in o[4] if r][0]; row[0][0]+=1
            if not replay(c,exe,"f11",[bb],KS,corrupt=True): raise vt.Error("self-test: corrupted expectation not noticed")
            c.traces-=1; break
    ops={}
    for b in sims:
        for s,_ in b: ops[s["a"]["op"]+"/"+s["out"]]=ops.get(s["a"]["op"]+"/"+s["out"],0)+1
    c.extra["calls_by_outcome"]=ops
    c.samples=[[line(s["a"]) for s,_ in sims[0]]]
    c.assumptions=["compiled with DUNE_ISTL_WITH_CHECKING so that stage violations are reported","blocks: double, FieldMatrix 1x1 and 2x3, Matrix<double>; address sanitizer on"]
if __name__=="__main__":
    fam=sys.argv[1]
    vt.main(fam,lambda c: run(c,fam))
