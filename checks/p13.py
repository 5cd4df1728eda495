#!/usr/bin/env python3
"""P13: Matrix Market files.  TLC explores spec/MatrixMarket.tla and judges what the library reads, writes, stores and loads."""
import sys, os, json, random
from collections import Counter
from fractions import Fraction
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"tools"))
import vt
U=8; BAD=-77777777
MT={"d":(1,1,0),"f":(1,1,0),"i":(1,1,0),"z":(1,1,1),"d11":(1,1,0),"d22":(2,2,0),"d21":(2,1,0),"d13":(1,3,0),"d32":(3,2,0),"z22":(2,2,1),"z12":(1,2,1),"zf":(1,1,1)}
VT={"vd":(1,0,1),"vi":(1,0,1),"vz":(1,1,1),"vd1":(1,0,1),"vd2":(2,0,1),"vd3":(3,0,1),"vz2":(2,1,1),"vs4":(1,0,4),"vs42":(2,0,4)}
NOBANNER={"format":"?","field":"?","sym":"?"}
def num(g,v,integer):
    """the number v/8 in one of the spellings the format allows"""
    if integer: return str(v//U) if g.random()<.8 or v<0 else "+"+str(v//U)
    x=v/U; s=g.choice(["%.3f","%.6e","%.4E","%g","%.8f","%.10e"])%x
    if v>=0 and g.random()<.15: s="+"+s
    return s
def badbanner(g,fmt,text,lines):
    """replaces the first line of a file by something that is not a banner: the file then is <fmt> real general"""
    w=[g.choice(["coordinate","array"]),g.choice(["real","integer","complex","pattern"]),g.choice(["general","symmetric","skew-symmetric","hermitian"])]
    r=g.randrange(8); first={"k":"comment","t":[]}
    if r==0: text.pop(0); return
    elif r==1: l=g.choice(["%","%%","% a comment","%%MatrixMarke","%%MatrixMarket%","%%matrixmarket matrix coordinate complex symmetric"])
    elif r==2: l="%%MatrixMarket "+g.choice(["vector","matri",""])+" "+" ".join(w)
    elif r==3: w[0]=g.choice(["arrai","coord","a","dense"]); l="%%MatrixMarket matrix "+" ".join(w)
    elif r==4: w[1]=g.choice(["rea","int","compleks","patterns","double","p"]); l="%%MatrixMarket matrix "+" ".join(w)
    elif r==5: w[2]=g.choice(["gen","symm","skew","s","hermite","lower","sx"]); l="%%MatrixMarket matrix "+" ".join(w)
    elif r==6: l=" ".join(["%%MatrixMarket","matrix"]+w[:g.randint(0,2)]) if g.random()<.9 else "%%MatrixMarket"
    else:
        l=g.choice(["MatrixMarket matrix "+" ".join(w),"x","-- 3 3"]); first={"k":"data","t":[BAD]}
    text[0]=l; lines.insert(0,first)
def genread(g,tname):
    """a file for a matrix target, and its lines as the specification sees them"""
    br,bc,cx=MT[tname]; integer=tname=="i"
    field=g.choice(["real","integer","complex","pattern"] if cx else ["real","real","integer","pattern","complex"] if not integer else ["integer","integer","pattern"])
    sym=g.choice(["general","general","symmetric","skew-symmetric"]+(["hermitian"] if field=="complex" else []))
    if field=="pattern" and sym=="skew-symmetric": sym="symmetric"
    mal=g.random()<.35
    n,m=br*g.randint(0,3),bc*g.randint(0,3)
    if sym!="general":
        n=m=br*bc*g.randint(0,3 if br*bc==1 else 2)
        if n==0 and g.random()<.7: n=m=br*bc
    kind=g.choice(["index","trunc","junk","zero","size","short","block","square","banner","banner"]) if mal else None
    if kind=="banner":
        field=g.choice(["integer" if integer else "real","integer"]); sym="general"; n,m=br*g.randint(0,3),bc*g.randint(0,3)
    if kind=="block" and br*bc>1: n+=1 if br>1 else 0; m+=1 if bc>1 else 0
    if kind=="square" and sym!="general": m+=bc
    pos=[(i,j) for i in range(1,n+1) for j in range(1,m+1) if sym=="general" or i>j or (i==j and sym!="skew-symmetric")]
    dens=g.random(); pos=[p for p in pos if g.random()<dens]; g.shuffle(pos)
    if g.random()<.4: pos.sort()
    step=U if field=="integer" else 1
    ents=[]
    for i,j in pos:
        re=g.randint(-400//step,400//step)*step if g.random()<.9 else 0; im=g.randint(-400,400) if not(sym=="hermitian" and i==j) else 0
        v=[] if field=="pattern" else [re,im] if field=="complex" else [re]
        ents.append([i*U,j*U]+v)
    ann=len(ents)
    if kind=="trunc": ann+=g.randint(1,3)
    if kind=="index" and ents: e=g.choice(ents); w=g.randrange(2); e[w]=((n,m)[w]+g.choice([1,1,2,7,100000]))*U
    if kind=="zero" and ents: e=g.choice(ents); e[g.randrange(2)]=0
    junk=None
    if kind=="junk" and ents: junk=(g.randrange(len(ents)),g.randrange(len(ents[0])))
    if kind=="short" and ents: e=ents[-1]; e.pop()
    case=g.choice([str,str,str.upper,str.title])
    text=["%%MatrixMarket "+" ".join(case(x) for x in ("matrix","coordinate",field,sym))]; lines=[]
    def extra(comments):
        while g.random()<.25:
            if comments and g.random()<.6: text.append(g.choice(["%","% a comment","%%x 3 3 3","%% ISTL_STRUCT blocked %d %d"%(br,bc)])); lines.append({"k":"comment","t":[]})
            else: text.append(g.choice([""," ","   "])); lines.append({"k":"blank","t":[]})
    sep=lambda: " "*g.choice([1,1,1,2,5])
    extra(True)
    sz=[n,m,ann]
    if kind=="size":
        if g.random()<.5: sz=sz[:g.randint(1,2)]
        else: sz=[] ; 
    if sz: text.append(sep().join(map(str,sz)) if g.random()<.7 else " "+sep().join(map(str,sz))+" "); lines.append({"k":"data","t":[x*U for x in sz]})
    for k,e in enumerate(ents):
        extra(False); tk=[str(x//U) for x in e[:2]]+[num(g,x,field=="integer") for x in e[2:]]; v=list(e)
        if junk and junk[0]==k: tk[junk[1]]=g.choice(["x","foo","--"]); v[junk[1]]=BAD
        if kind=="size" and not sz: continue
        text.append(("  " if g.random()<.1 else "")+sep().join(tk)); lines.append({"k":"data","t":v})
    tail="\n" if g.random()<.8 else ""
    fmt="coordinate"
    if kind=="banner": badbanner(g,"coordinate",text,lines); return "\n".join(text)+tail,dict(NOBANNER),lines,kind
    return "\n".join(text)+tail,{"format":fmt,"field":field,"sym":sym},lines,kind
def genvec(g,tname):
    b,cx,lanes=VT[tname]; integer=tname=="vi"
    field=g.choice(["real","integer","complex","complex"] if cx else ["integer"] if integer else ["real","real","integer","complex","pattern"])
    n=b*g.randint(0,4); kind=g.choice(["trunc","junk","cols","size","block","coordinate","banner","banner"]) if g.random()<.35 else None
    if kind=="banner": field="integer" if integer else "real"
    cols=lanes; fmt="array"
    if kind=="cols": cols=g.choice([c for c in (1,2,3,4,5) if c!=lanes])
    if kind=="block": n+=1 if b>1 else 0
    if kind=="coordinate": fmt="coordinate"
    step=U if field=="integer" else 1
    vals=[[g.randint(-400//step,400//step)*step]+([g.randint(-400,400)] if field=="complex" else []) for _ in range(n*cols)]
    if kind=="trunc" and vals: vals=vals[:-g.randint(1,len(vals))]
    junk=g.randrange(len(vals)) if kind=="junk" and vals else None
    case=g.choice([str,str,str.upper]); text=["%%MatrixMarket "+" ".join(case(x) for x in ("matrix",fmt,field,"general"))]; lines=[]
    def extra(comments):
        while g.random()<.2:
            if comments and g.random()<.6: text.append("% note"); lines.append({"k":"comment","t":[]})
            else: text.append(""); lines.append({"k":"blank","t":[]})
    extra(True); sz=[n,cols]
    if kind=="size": sz=sz[:1]; vals=[]
    text.append(" ".join(map(str,sz))); lines.append({"k":"data","t":[x*U for x in sz]})
    for k,v in enumerate(vals):
        extra(False); tk=[num(g,x,field=="integer") for x in v]; w=list(v)
        if k==junk: tk[-1]="x"; w[-1]=BAD
        text.append(" ".join(tk)); lines.append({"k":"data","t":w})
    if kind=="banner": badbanner(g,"array",text,lines); return "\n".join(text)+"\n",dict(NOBANNER),lines,kind
    return "\n".join(text)+"\n",{"format":fmt,"field":field,"sym":"general"},lines,kind
def tok(s):
    try: x=Fraction(s)*U
    except ValueError: return BAD
    return int(x) if x.denominator==1 else BAD
def parse(text):
    ls=text.split("\n"); b=ls[0].split(); lines=[]
    ban={"format":b[2],"field":b[3],"sym":b[4]} if len(b)==5 and b[0]=="%%MatrixMarket" and b[1]=="matrix" else {"format":"?","field":"?","sym":"?"}
    for l in ls[1:]:
        if not l.strip(): lines.append({"k":"blank","t":[]})
        elif l.startswith("%"): lines.append({"k":"comment","t":[]})
        else: lines.append({"k":"data","t":[tok(x) for x in l.split()]})
    return ban,lines
def run(c):
    h=c.build("matrixmarket.cc",bg=True); hs=c.build("matrixmarket.cc",out="matrixmarket-san",san=True,bg=True)
    for n in ((2,3) if c.thorough else (3,)):
        c.model("MatrixMarket",vt.cfgtext(dict(N0=n,U=U),"INVARIANTS Complete Partial Blocks\n",init="INIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\n"))
    JC="INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n N0=1\n U=%d\nINVARIANT RecordOK\n"%U
    g=c.rng; K=1 if not c.thorough else 15
    cmds=[]; info={}
    for k in range(2600*K):
        t=g.choice(list(MT)); f=c.path("f%d"%k); text,ban,lines,kind=genread(g,t); open(f+".mm","w").write(text); cmds.append("read %s %s %d"%(t,f,k)); info[f]=(ban,lines,kind,text)
    for k in range(900*K):
        t=g.choice(list(VT)); f=c.path("v%d"%k); text,ban,lines,kind=genvec(g,t); open(f+".mm","w").write(text); cmds.append("readv %s %s %d"%(t,f,k)); info[f]=(ban,lines,kind,text)
    for k in range(700*K): cmds.append("write %s %s %d"%(g.choice(list(MT)),c.path("w%d"%k),c.seed*7919+k))
    for k in range(400*K): cmds.append("writev %s %s %d"%(g.choice(list(VT)),c.path("x%d"%k),c.seed*7919+k))
    for k in range(900*K): cmds.append("round %s %s %d"%(g.choice(list(MT)+list(VT)),c.path("r%d"%(k%9)),c.seed*7919+k))
    recs=[]
    def go(exe,part,name):
        cf=c.path(name+".cmd"); of=c.path(name+".out"); todo=list(part); got=[]; crashes=0
        while todo:
            open(cf,"w").write("\n".join(todo)+"\n"); r=c.run([exe,cf,of],timeout=(600 if c.thorough else 150))
            o=open(of).read().splitlines(); o=o if r.rc==0 else [l for l in o if l.endswith("}")]
            got+=o
            if r.rc==0 and "RECORDS" in r.out: break
            crashes+=1; f=todo[len(o)].split()[2] if len(o)<len(todo) else None
            c.violation("Matrix Market operation crashed (exit %d): %s%s: %s"%(r.rc,todo[len(o)] if f else "end","" if f not in info else " file %r (%s)"%(info[f][3],info[f][2] or "conforming"),r.err[-800:]),{"cmd":todo[len(o)] if f else None,"file":info[f][3] if f in info else None})
            todo=todo[len(o)+1:]
            if crashes>=3: break
        return got
    half=len(cmds)//3
    g.shuffle(cmds)
    out=go(hs.wait(),cmds[:half],"san")+go(h.wait(),cmds[half:],"plain")
    for l in out:
        d=json.loads(l)
        if d["kind"] in ("read","readv"): d["banner"],d["lines"],mal,_=info[d["file"]]; d["mal"]=mal or ""
        elif d["kind"] in ("write","writev"): d["banner"],d["lines"]=parse(open(d["file"]+".mm").read())
        if d.get("inexact"): d["out"]="inexact"
        recs.append(json.dumps(d))
    for np in ((1,2,3) if not c.thorough else (1,2,3,4)):
        f=c.path("par%d"%np); r=c.run([h.wait(),"par",f,str(c.seed),str(60*K)],np=np,timeout=(600 if c.thorough else 150))
        if r.rc!=0 or "RECORDS" not in r.out: c.violation("storing and loading a distributed matrix failed with %d processes (exit %d): %s"%(np,r.rc,r.err[-1200:]),{"np":np,"seed":c.seed})
        else:
            for k in range(np): recs+=open("%s.%d"%(f,k)).read().splitlines()
    def describe(d):
        k=d["kind"]
        if k in ("read","readv"): return "reading a %s file (%s) into blocks %s: outcome %s is not what the format prescribes"%(d["banner"],d["mal"] or "conforming",d["target"],d["out"])
        if k in ("write","writev"): return "file written for blocks %s is not a conforming description of the object"%d["target"]
        if k=="round": return "storing with precision %d and loading blocks %s does not give the same object"%(d["prec"],d["target"])
        return "distributed store/load on rank %d of %d (blocks %s)"%(d["rank"],d["np"],d["target"])
    vt.judge_all(c,"MatrixMarket",JC,recs,describe)
    def corrupt(d):
        if d["kind"]=="read" and d["out"]=="ok" and d["vals"] and not d["mal"]: d["vals"][0][2]+=1; return d
    vt.selftest(c,"MatrixMarket",JC,recs,corrupt)
    ds=[json.loads(l) for l in recs]; c.extra["records"]=dict(Counter(d["kind"]+("/"+d["out"] if "out" in d else "") for d in ds)); c.extra["malformed"]=dict(Counter(d["mal"] for d in ds if d.get("mal")))
    c.assumptions=["files of up to 9 x 9 scalars; malformed files limited to the listed mutations (index out of range, truncated, junk token, missing size, sizes that do not fit the blocks, wrong field, wrong format)",
        "pattern files give a matrix with this pattern and zero entries; a file whose first line is not a banner is read from its beginning as coordinate (vectors: array) real general, as the library announces"]
if __name__=="__main__": vt.main("P13",run)
