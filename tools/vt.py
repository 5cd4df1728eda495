"""Common machinery of the checks: scratch directory, harness build, harness run, TLC, evidence, verdict."""
import signal, threading, os, sys, json, time, subprocess, tempfile, shutil, re, atexit, random, hashlib
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("VERIF_REPO","/repo")
SPEC=os.path.join(VERIF,"spec"); HARN=os.path.join(VERIF,"harness")
TLAJAR="/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU=min(8,os.cpu_count() or 4)
CXXFLAGS=("-std=gnu++20 -w -DHAVE_CONFIG_H -DHAVE_MPI=1 -DHAVE_METIS=1 -DHAVE_PARMETIS=1 -DHAVE_GMP=1 -DHAVE_QUADMATH=1 "
 "-DHAVE_SUITESPARSE_AMD=1 -DHAVE_SUITESPARSE_BTF=1 -DHAVE_SUITESPARSE_CAMD=1 -DHAVE_SUITESPARSE_CCOLAMD=1 "
 "-DHAVE_SUITESPARSE_CHOLMOD=1 -DHAVE_SUITESPARSE_COLAMD=1 -DHAVE_SUITESPARSE_KLU=1 -DHAVE_SUITESPARSE_LDL=1 "
 "-DHAVE_SUITESPARSE_SPQR=1 -DHAVE_SUITESPARSE_UMFPACK=1 -DHAVE_SUPERLU=1 -DHAVE_ARPACKPP=1 -DMETIS_API_VERSION=5 "
 "-DMPICH_SKIP_MPICXX=1 -DMPI_NO_CPPBIND=1 -DOMPI_SKIP_MPICXX=1 -DMPIPP_H -D_MPICC_H -D_GLIBCXX_USE_FLOAT128 "
 "-fext-numeric-literals").split()
INCL=["-I"+REPO,"-I"+os.path.join(HARN,"config"),"-I"+HARN,"-isystem","/opt/dune/prefix/include","-isystem","/usr/include/superlu",
 "-isystem","/usr/include/suitesparse","-isystem","/usr/lib/x86_64-linux-gnu/openmpi/include","-isystem","/usr/include/arpack++"]
LIBS=("-Wl,-rpath,/usr/lib/x86_64-linux-gnu/openmpi/lib /opt/dune/prefix/lib/libdunecommon.a -larpack++ -larpack -lsuperlu "
 "/usr/lib/libparmetis.so -lmetis -lgmpxx -lopenblas -lm -ldl /opt/dune/prefix/lib/libdunecommon.a /usr/lib/x86_64-linux-gnu/libtbb.so.12.11 -lldl "
 "-lspqr -lumfpack -lcholmod -lamd -lcolamd -lcamd -lccolamd -lsuitesparseconfig /usr/lib/x86_64-linux-gnu/openmpi/lib/libmpi.so -lquadmath -lgmp").split()
SAN=["-fsanitize=address","-fno-omit-frame-pointer","-D_GLIBCXX_ASSERTIONS"]
MPIENV={"OMPI_ALLOW_RUN_AS_ROOT":"1","OMPI_ALLOW_RUN_AS_ROOT_CONFIRM":"1","OMPI_MCA_btl":"self,vader","OMPI_MCA_plm":"isolated",
 "OMPI_MCA_rmaps_base_oversubscribe":"1","OMPI_MCA_hwloc_base_binding_policy":"none","OMPI_MCA_mpi_yield_when_idle":"1",
 "OMPI_MCA_btl_vader_single_copy_mechanism":"none","OMP_NUM_THREADS":"1","OPENBLAS_NUM_THREADS":"1"}

LOCK=threading.RLock()
class Error(Exception): pass       # the check itself failed: no verdict

class Check:
    def __init__(self,pid,level="model_checking"):
        self.pid=pid; self.t0=time.time(); self.level=level
        self.seed=int(os.environ.get("VERIF_SEED","1") or 1)
        self.tier=os.environ.get("VERIF_TIER","quick")
        if "--thorough" in sys.argv: self.tier="thorough"
        self.thorough=self.tier=="thorough"
        self.dir=tempfile.mkdtemp(prefix="verif-%s-"%pid)
        if "--keep" in sys.argv: print("scratch",self.dir)
        else: atexit.register(shutil.rmtree,self.dir,True)
        self.states=0; self.transitions=0; self.traces=0; self.samples=[]; self.assumptions=[]; self.extra={}
        self.violations=[]; self.known=[]; self.hung=False
        self.rng=random.Random(self.seed)
        self.knownlist=load_known(pid)
    def path(self,n): return os.path.join(self.dir,n)
    def log(self,*a): print("[%s %.1fs]"%(self.pid,time.time()-self.t0),*a,flush=True)
    # ---- harness
    def build(self,src,out=None,opt="-O1",san=False,extra=(),bg=False):
        out=self.path(out or os.path.splitext(os.path.basename(src))[0])
        cmd=["g++",opt]+CXXFLAGS+(SAN if san else ["-D_GLIBCXX_ASSERTIONS"])+list(extra)+INCL+[os.path.join(HARN,src),"-o",out]+LIBS
        p=subprocess.Popen(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        h=Built(self,src,out,p)
        return h if bg else h.wait()
    def run(self,cmd,inp=None,timeout=300,np=0,env=None,what=None,replay=None):
        """Runs the harness; abnormal ends are violations (crash/hang of the implementation on a legal input).
        A run that failed before it started - MPI itself could not be initialised on a busy machine - is repeated."""
        for n in range(4):
            r=self._run(cmd,inp,timeout,np,env)
            if r.rc==0 or r.rc==-999 or not any(w in r.err for w in ("MPI_INIT failed","orte_init failed","Unable to start a daemon","ompi_mpi_init: ")): return r
            time.sleep(1+2*n)
        return r
    def _run(self,cmd,inp,timeout,np,env):
        e=dict(os.environ); e.update(MPIENV); e["ASAN_OPTIONS"]="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1"
        e["TMPDIR"]=self.dir
        if env: e.update(env)
        if np: cmd=["mpirun","-np",str(np)]+cmd
        elif cmd[0]!="mpirun": e["OMPI_MCA_ess_singleton_isolated"]="1"   # a single process needs no daemon
        # once something hung, the remaining runs are given less time, so that the check ends in time
        if self.hung and not self.thorough: timeout=min(timeout,40)
        p=subprocess.Popen(cmd,stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,env=e,cwd=self.dir,errors="replace",start_new_session=True)
        try: o,er=p.communicate(inp,timeout=timeout)
        except subprocess.TimeoutExpired:
            self.hung=True
            p.terminate()       # mpirun ends its processes
            try: o,er=p.communicate(timeout=10)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid,signal.SIGKILL); o,er=p.communicate()
            return Res(-999,o,"timeout")
        return Res(p.returncode,o,er)
    # ---- TLC
    def tlc(self,module,cfg,workers=NCPU,args=(),env=None,timeout=800,extra_files=(),heap="4g",dfs=False,consts=None):
        """Runs TLC in the scratch directory.  Returns TlcRes."""
        d=tempfile.mkdtemp(prefix="tlc-",dir=self.dir)
        for f in os.listdir(SPEC):
            if f.endswith(".tla") or f.endswith(".cfg"): shutil.copy(os.path.join(SPEC,f),d)
        if "\n" in cfg:
            open(os.path.join(d,module+"_gen.cfg"),"w").write(cfg); cfg=module+"_gen.cfg"
        e=dict(os.environ)
        if env: e.update({k:str(v) for k,v in env.items()})
        cmd=["java","-XX:+UseParallelGC","-Xmx"+heap,"-Xss16m","-Djava.io.tmpdir="+d,"-cp",TLAJAR,"tlc2.TLC","-workers",str(workers),"-noGenerateSpecTE","-metadir",os.path.join(d,"meta"),"-config",cfg]+list(args)+[module+".tla"]
        try: r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout,env=e,cwd=d,errors="replace")
        except subprocess.TimeoutExpired: raise Error("TLC timeout on "+module)
        t=TlcRes(r.returncode,r.stdout)
        shutil.rmtree(os.path.join(d,"meta"),True)
        return t
    def simulate(self,module,cfg,num,depth,procs=6,tag="BEH",**k):
        """-simulate in several single-worker TLC processes with different seeds; returns the printed behaviours."""
        from concurrent.futures import ThreadPoolExecutor
        def one(i): return self.tlc(module,cfg,workers=1,args=["-simulate","num=%d"%max(1,num//procs),"-depth",str(depth+2),"-seed",str(self.seed*1000+i)],heap="2g",**k)
        r=[]
        with ThreadPoolExecutor(procs) as ex:
            for t in ex.map(one,range(procs)):
                if "Error:" in t.out: raise Error("simulation of %s:\n%s"%(module,t.out[-3000:]))
                r+=t.printed(tag); self.states+=t.distinct; self.transitions+=t.generated
        if not r: raise Error("no simulated behaviours:\n"+t.out[-2000:])
        return r
    def model(self,module,cfg,**k):
        """Model-checks the specification itself: must succeed (a failure is an error of the specification)."""
        t=self.tlc(module,cfg,**k)
        if not t.ok: raise Error("specification %s/%s fails:\n%s"%(module,cfg.splitlines()[0] if "\n" in cfg else cfg,t.out[-3000:]))
        self.states+=t.distinct; self.transitions+=t.generated
        self.log("model %s: %d states, %d transitions"%(module,t.distinct,t.generated))
        return t
    def judge(self,module,recfile,n,cfg=None,chunks=None,env=None,**k):
        """Record judging: TLC visits records 1..n (in `chunks` parallel behaviours) and checks RecordOK on each.
        Returns list of failing record numbers (at most a few)."""
        e={"REC":recfile,"NREC":n,"CHUNKS":chunks or min(n,NCPU*4) or 1}
        if env: e.update(env)
        t=self.tlc(module,cfg or module+".cfg",env=e,**k)
        self.states+=t.distinct; self.transitions+=t.generated
        if t.ok:
            if t.distinct<n: raise Error("judge %s visited %d of %d records\n%s"%(module,t.distinct,n,t.out[-2000:]))
            return []
        bad=t.badrecs()
        if not bad: raise Error("judge %s ended abnormally:\n%s"%(module,t.out[-4000:]))
        return bad
    # ---- verdict
    def violation(self,text,replay=None,key=None):
        with LOCK: self._violation(text,replay,key)
    def _violation(self,text,replay=None,key=None):
        """Registers a violation; `key` identifies the failing input/call site for the known-findings list."""
        for k in self.knownlist:
            if key is not None and k["key"]==key:
                if key not in self.known:
                    self.known.append(key); print("KNOWN-FINDING: property=%s %s"%(self.pid,k["text"]),flush=True)
                return
        if len(self.violations)>=6: self.violations.append("-"); return
        rp=os.path.join(VERIF,"build","replay"); os.makedirs(rp,exist_ok=True)
        f=os.path.join(rp,"%s-%s.json"%(self.pid,hashlib.sha1((text+str(replay)).encode()).hexdigest()[:10]))
        with open(f,"w") as h: json.dump({"property":self.pid,"what":text,"replay":replay,"seed":self.seed,"tier":self.tier},h,indent=1,default=str)
        self.violations.append(f)
        print("  violated:",text[:1500],flush=True)
        print("VIOLATION property=%s replay=%s"%(self.pid,f),flush=True)
    def finish(self):
        cov={"states":self.states,"transitions":self.transitions,"traces_validated_against_impl":self.traces,"samples":self.samples[:5]}
        cov.update(self.extra)
        ev={"property":self.pid,"tier":self.tier,"seed":self.seed,"level":self.level,"coverage":cov,"assumptions":self.assumptions,
            "wall_s":round(time.time()-self.t0,2),"violations":len(self.violations)}
        os.makedirs(os.path.join(VERIF,"evidence"),exist_ok=True)
        with open(os.path.join(VERIF,"evidence",self.pid+".json"),"w") as h: json.dump(ev,h,indent=1)
        self.log("states=%d transitions=%d traces=%d violations=%d"%(self.states,self.transitions,self.traces,len(self.violations)))
        sys.exit(1 if self.violations else 0)

class Built:
    def __init__(s,c,src,out,p): s.c=c; s.src=src; s.out=out; s.p=p; s.done=False
    def wait(s):
        if s.done: return s.out
        o,_=s.p.communicate()
        if s.p.returncode!=0: raise Error("harness %s does not compile:\n%s"%(s.src,o[-6000:]))
        s.done=True; s.c.log("built",s.src); return s.out

class Res:
    def __init__(s,rc,out,err): s.rc=rc; s.out=out; s.err=err
class TlcRes:
    def __init__(s,rc,out):
        s.rc=rc; s.out=out; s.ok="Model checking completed. No error has been found" in out or (rc==0 and "Error:" not in out)
        m=re.findall(r"(\d+) states generated.*?(\d+) distinct states found",out.replace(",",""))
        s.generated=int(m[-1][0]) if m else 0; s.distinct=int(m[-1][1]) if m else 0
        if not m:
            m=re.findall(r"(\d+) states checked",out.replace(",","")) or re.findall(r"The number of states generated: (\d+)",out.replace(",",""))
            if m: s.generated=s.distinct=int(m[-1])
    def badrecs(s):
        if not re.search(r"Invariant \S+ is violated|is violated by the initial state",s.out): return []
        m=re.findall(r"/\\ i = (\d+)",s.out)
        return [int(m[-1])] if m else []
    def printed(s,tag):
        """values printed by PrintT(<<tag, json-string>>)"""
        r=[]
        for l in s.out.splitlines():
            if l.startswith('<<"%s", "'%tag) and l.endswith('">>'):
                r.append(json.loads(json.loads('"'+l[len('<<"%s", "'%tag):-3]+'"')))
        return r

def load_known(pid):
    f=os.path.join(VERIF,"known_findings.jsonl"); r=[]
    if os.path.exists(f):
        for l in open(f):
            l=l.strip()
            if not l or l.startswith("#"): continue
            d=json.loads(l)
            if d.get("property")==pid and d.get("status","open")=="open": r.append(d)
    return r

def graph_tours(trans,init):
    """trans: list of (src,a,out,extra,obs,dst).  Returns call scripts that together take every transition: a shortest path
    to the source state, then all refused/neutral calls (self loops) of that state, then one state-changing call each."""
    from collections import deque, defaultdict
    by=defaultdict(list)
    for t in trans: by[t[0]].append(t)
    pred={init:None}; q=deque([init])
    while q:
        s=q.popleft()
        for t in by[s]:
            if t[5] not in pred: pred[t[5]]=t; q.append(t[5])
    def path(s):
        p=[]
        while pred[s] is not None: p.append(pred[s]); s=pred[s][0]
        return p[::-1]
    tours=[]
    for s in by:
        if s not in pred: raise Error("transition graph not connected")
        pre=path(s)
        loops=[t for t in by[s] if t[5]==s and t[2]!="any"]; moves=[t for t in by[s] if not(t[5]==s and t[2]!="any")]
        if loops: tours.append([(t,False) for t in pre]+[(t,True) for t in loops])
        for t in moves: tours.append([(x,False) for x in pre]+[(t,True)])
    return tours

def main(pid,fn,level="model_checking"):
    c=Check(pid,level)
    try: fn(c)
    except Error as x:
        if c.violations: c.finish()
        print("ERROR of the check %s: %s"%(pid,x),flush=True); sys.exit(2)
    c.finish()

# ---- judging of recorded behaviour
def judge_all(c,module,cfg,recs,describe,key=None,maxrep=3,env=None,heap="4g",timeout=800):
    """TLC judges every record (JSON line); failing records become violations.  After a failing record the remaining ones are
    judged again without it, so that several different failures are reported."""
    if not recs: raise Error("no records for "+module)
    c.traces+=len(recs); rest=list(recs); rep=0
    while rest:
        f=c.path("judge-%s.json"%module)
        with open(f,"w") as o: o.write("\n".join(rest)+"\n")
        bad=c.judge(module,f,len(rest),cfg=cfg,env=env,heap=heap,timeout=timeout)
        if not bad: break
        d=json.loads(rest[bad[0]-1]); k=key(d) if key else None
        before=len(c.violations)
        c.violation(describe(d)+": "+rest[bad[0]-1][:1200],d,key=k)
        if len(c.violations)>before: rep+=1
        if rep>=maxrep: break
        if k is not None and any(x["key"]==k for x in c.knownlist): rest=[l for l in rest if key(json.loads(l))!=k]
        else:
            sig=describe(d); rest=[l for i,l in enumerate(rest) if i!=bad[0]-1 and describe(json.loads(l))!=sig]
    c.log("judged %d records of %s"%(len(recs),module))
    if len(c.samples)<3: c.samples+=[json.loads(recs[0]),json.loads(recs[len(recs)//2])]
def selftest(c,module,cfg,recs,corrupt,env=None):
    """A corrupted record must be rejected by the specification."""
    import copy
    for l in recs:
        d=corrupt(json.loads(l))
        if d is None: continue
        f=c.path("self-%s.json"%module)
        with open(f,"w") as o: o.write(json.dumps(d)+"\n")
        s,t=c.states,c.transitions
        if not c.judge(module,f,1,cfg=cfg,env=env): raise Error("self-test: corrupted record accepted by "+module)
        c.states,c.transitions=s,t
        return
    raise Error("self-test: no record to corrupt in "+module)

# ---- replay of specification behaviours into the real code
def cfgtext(consts,extra,init="INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"):
    return init+("CONSTANTS\n"+"".join((" %s %s\n" if str(v).startswith("<-") else " %s=%s\n")%(k,v) for k,v in consts.items()) if consts else "")+extra
def same(exp,got):
    """expected vs observed; undefined values match any integer"""
    if isinstance(exp,list): return isinstance(got,list) and len(exp)==len(got) and all(same(x,y) for x,y in zip(exp,got))
    if exp==-9999 and not isinstance(exp,bool): return isinstance(got,int)
    return exp==got
def std_compare(step,got):
    if step["out"]!=got["out"]: return False
    return same(step["obs"],got["obs"]) and (not step["extra"] or same(step["extra"],got["extra"]))
def tours_of(c,module,cfg,limit=None):
    t=c.model(module,cfg,args=["-fp","7"]); tr=[(x["s"],x,x["out"],0,0,x["d"]) for x in t.printed("TR")]
    seen=set(); tr2=[]
    for x in tr:
        k=(x[0],json.dumps(x[1]["a"],sort_keys=True))
        if k not in seen: seen.add(k); tr2.append(x)
    tt=[[(e[1],show) for e,show in tour] for tour in graph_tours(tr2,tr[0][0])]
    if limit and len(tt)>limit: c.rng.shuffle(tt); tt=tt[:limit]
    c.log("%d transitions, %d behaviours"%(len(tr2),len(tt)))
    return tt
def replay(c,cmd,behs,K,line,compare=std_compare,name="",corrupt=False,env=None):
    """cmd + [scriptfile, from]; behs: list of lists of (step,show).  Returns number of differing behaviours."""
    from concurrent.futures import ThreadPoolExecutor
    n=1 if corrupt else min(NCPU,max(1,len(behs)//20))
    with ThreadPoolExecutor(n) as ex: bad=sum(ex.map(lambda i: _replay1(c,cmd,behs[i::n],K,line,compare,name,corrupt,i,env),range(n)))
    if not corrupt: c.traces+=len(behs)
    return bad
def _replay1(c,cmd,behs,K,line,compare,name,corrupt,part,env):
    scr=c.path("script-%s-%d%s.txt"%(name,part,"c" if corrupt else ""))
    with open(scr,"w") as f:
        for n,b in enumerate(behs):
            f.write("B %d %d\n"%(n,K))
            for s,show in b: f.write(("!" if show else "")+line(s["a"])+"\n")
    frm=0; crashes=0; bad=0
    while frm<len(behs):
        r=c.run(cmd+[scr,str(frm)],timeout=(240 if c.thorough else 150),env=env)
        cur=-1; k=0; dead=True
        for l in r.out.splitlines():
            if l.startswith("B "): cur=int(l[2:]); exp=[x for x in behs[cur] if x[1]]; k=0; dead=False; continue
            if l.startswith("L ") and not corrupt and cur>=0:
                bad+=1
                if bad<=3: c.violation("%s: %s bytes remain in use after every object of the history is gone"%(name,l[2:]),{"config":name,"calls":[line(s["a"]) for s,_ in behs[cur]]})
                continue
            if l=="END" or dead: continue
            try: got=json.loads(l)
            except ValueError: continue
            if k>=len(exp): continue
            st=exp[k][0]; k+=1
            if not compare(st,got):
                dead=True; bad+=1
                if corrupt: return bad
                if bad<=3: c.violation("%s: after call '%s' expected %s %s %s, observed %s"%(name,line(st["a"]),st["out"],st["obs"],st["extra"],l),
                            {"config":name,"calls":[line(s["a"]) for s,_ in behs[cur]],"failed_call":line(st["a"])})
        if r.rc==0 and r.out.rstrip().endswith("END"): break
        if cur<0: raise Error("harness did not start: "+r.err[-2000:])
        crashes+=1; bad+=1
        if crashes<=2: c.violation("%s: crash/hang (exit %d) while replaying a legal history: %s"%(name,r.rc,r.err[-1500:]),{"config":name,"calls":[line(s["a"]) for s,_ in behs[cur]]})
        if crashes>3 or bad>20: break
        frm=cur+1
    return bad
def count_calls(c,behs):
    ops=c.extra.setdefault("calls_by_outcome",{})
    for b in behs:
        for s,_ in b: k=s["a"]["op"]+"/"+s["out"]; ops[k]=ops.get(k,0)+1
