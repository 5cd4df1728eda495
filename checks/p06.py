#!/usr/bin/env python3
"""P06: MatrixIndexSet.  TLC explores spec/IndexSets.tla (objects) and spec/IndexSetThreads.tla (concurrent additions); behaviours are
replayed into the real class, the concurrent ones under the thread sanitizer."""
import sys, os, json, copy
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"tools"))
import vt
ORD={"default":["mv"],"ctor":["n","m","mv"],"add":["i","j"],"addmany":["i","start","stride","cnt"],"resize":["n","m"],"import":["p","ro","co"],"export":["t"],
 "copyctor":["p"],"movector":["p"],"assign":["p"],"moveassign":["p"]}
def line(a):
    f=[a["op"],a["o"]]+[a[k] for k in ORD.get(a["op"],[])]
    if a["op"]=="importpat": f+=[a["ro"],a["co"]]+[x for p in a["pat"] for x in p]
    if a["op"]=="paradd":
        for r in a["cols"]: f+=[len(r)]+r
    return " ".join(map(str,f))
BFS="INVARIANTS TypeOK\nPROPERTIES OnlyGrows\nVIEW View\nACTION_CONSTRAINT EmitTransitions\n"
SIM="INVARIANTS TypeOK EmitAtDepth\n"
def run(c):
    h=c.build("indexset.cc",san=True,opt="-O0",bg=True)
    ht=c.build("indexset.cc",out="indexset_tsan",opt="-O1",extra=["-fsanitize=thread","-g"],bg=True)
    for mv in (0,1,2): c.model("IndexSetThreads","SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Rows={r1,r2} Cols={0,1,2} MV=%d Len0=%d\nINVARIANTS Union Prefix SwitchLate\nPROPERTY Finishes\n"%(mv,2 if not c.thorough else 3))
    b=dict(Big="FALSE",Random="FALSE",Depth=100)
    conf=[dict(b,Objs="{1}",MaxN=2,MaxM=3 if c.thorough else 2,MVs="{0,1,2,9}",Fams="{}"),dict(b,Objs="{1,2}",MaxN=1,MaxM=2,MVs="{1,9}",Fams='{"import","copyctor","movector","assign","moveassign"}')]
    tours=[(vt.tours_of(c,"IndexSets",vt.cfgtext(k,BFS),None if c.thorough else 9000),len(k["Objs"].split(","))) for k in conf]
    al='{"import","importpat","copyctor","movector","assign","moveassign"}'
    s1=dict(Objs="{1,2}",MaxN=4,MaxM=7,MVs="{0,1,2,3,5,9}",Fams=al,Big="FALSE",Random="TRUE",Depth=40)
    sims=[[(x,True) for x in q] for q in c.simulate("IndexSets",vt.cfgtext(s1,SIM),1000 if not c.thorough else 10000,40)]
    s2=dict(s1,MVs="{100,300,512}",Big="TRUE",MaxN=2,MaxM=700,Fams='{"copyctor","import"}',Depth=8)
    big=[[(x,True) for x in q] for q in c.simulate("IndexSets",vt.cfgtext(s2,SIM),24 if not c.thorough else 200,8)]
    s2=dict(s2,MVs="{2048}",MaxN=1,MaxM=2100,Depth=5)      # the default threshold
    big+=[[(x,True) for x in q] for q in c.simulate("IndexSets",vt.cfgtext(s2,SIM),6 if not c.thorough else 60,5)]
    for q in big:     # 2048 is the default threshold: use the constructor without it
        for x,_ in q:
            if x["a"].get("mv")==2048: x["a"]["mv"]=-1
    s3=dict(s1,Objs="{1}",Fams='{"paradd","importpat"}',Depth=25,MaxN=4)
    par=[[(x,True) for x in q] for q in c.simulate("IndexSets",vt.cfgtext(s3,SIM),200 if not c.thorough else 3000,25)]
    exe=h.wait()
    for t,K in tours: vt.replay(c,[exe],t,K,line,name="tour%d"%K)
    vt.replay(c,[exe],sims,2,line,name="sim"); vt.replay(c,[exe],big,2,line,name="big")
    et=ht.wait(); vt.replay(c,[et],par,1,line,name="threads",env={"TSAN_OPTIONS":"exitcode=66:halt_on_error=1"})
    vt.count_calls(c,sims); vt.count_calls(c,par); vt.count_calls(c,big)
    for q in sims:
        w=[i for i,(s,_) in enumerate(q) if any(o[0]=="ok" and o[3]>0 for o in s["obs"])]
        if w:
            bb=copy.deepcopy(q); o=[o for o in bb[w[-1]][0]["obs"] if o[0]=="ok" and o[3]>0][0]; [r for r in o[4] if r][0][0]+=1
            if not vt.replay(c,[exe],[bb],2,line,name="self",corrupt=True): raise vt.Error("self-test: corrupted expectation not noticed")
            break
    c.samples=[[line(s["a"]) for s,_ in sims[0]]]
    c.assumptions=["additions stay inside the declared dimensions","address sanitizer; thread sanitizer for concurrent additions"]
if __name__=="__main__": vt.main("P06",run)
