------------------------------ MODULE Factory ------------------------------
(* The solver and preconditioner factories: a registry of creators (state), requests with configuration trees, and the     *)
(* meaning of a configuration: the constructor call it stands for, or a refusal.  World = the operator the factory serves. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Field,      \* "double" "float" "complex"
          Block,      \* "scalar" "1" "2" (block size) or "free" for a matrix-free operator
          Cat,        \* category of the operator: "sequential" "overlapping" "nonoverlapping"
          Ranks,      \* number of processes
          Mode,       \* "graph" (all configurations with at most two unusual entries), "random", "ctor"
          Depth
VARIABLES inited,     \* initSolverFactories has been called
          over,       \* user definitions in force: set of names ("mine": a new one, "jac": overriding a built-in one)
          held,       \* the factory keeps a preconditioner passed at runtime alive
          hist        \* last request with its outcome (random mode: all)
vars == <<inited, over, held, hist>>

Refused == << "refused" >>
NONE == "-"
(* ------------------------------------------------------------------ values of configuration entries                     *)
IntTok == {"0","1","2","3","4","5","6","7","8","10","15","20","40","60","100","1000"}
RealTok == IntTok \cup {"0.5","1.25","1.5","0.1","1e-2","1e-4","0.25","1.6"}
TrueTok == {"true","yes","1","True"}
FalseTok == {"false","no","0","NO"}
BoolTok == TrueTok \cup FalseTok
Junk == {"x","1.5.2"}
\* cfg: function from keys to tokens; an entry that is absent has the token NONE
Has(cfg,k) == k \in DOMAIN cfg /\ cfg[k]#NONE
IntOK(cfg,k) == ~Has(cfg,k) \/ cfg[k] \in IntTok
RealOK(cfg,k) == ~Has(cfg,k) \/ cfg[k] \in RealTok
BoolOK(cfg,k) == ~Has(cfg,k) \/ cfg[k] \in BoolTok \cup IntTok
Val(cfg,k,dflt) == IF Has(cfg,k) THEN cfg[k] ELSE dflt
BoolVal(cfg,k,dflt) == IF Has(cfg,k) THEN (IF cfg[k] \in FalseTok THEN "0" ELSE "1") ELSE dflt
Lower == [x \in {"none","None","atOnce","atonce","successive","Successive","bogus","isotropic","Isotropic","anisotropic","Anisotropic",
                 "diagonal","Diagonal","rowSum","rowsum","frobenius","Frobenius","one","One"} |->
          CASE x="None" -> "none" [] x="atOnce" -> "atonce" [] x="Successive" -> "successive" [] x="Isotropic" -> "isotropic" [] x="Anisotropic" -> "anisotropic"
            [] x="Diagonal" -> "diagonal" [] x="rowSum" -> "rowsum" [] x="Frobenius" -> "frobenius" [] x="One" -> "one" [] OTHER -> x]
Num == [s \in IntTok |-> CASE s="0" -> 0 [] s="1" -> 1 [] s="2" -> 2 [] s="3" -> 3 [] s="4" -> 4 [] s="5" -> 5 [] s="6" -> 6 [] s="7" -> 7 [] s="8" -> 8 [] s="10" -> 10
                           [] s="15" -> 15 [] s="20" -> 20 [] s="40" -> 40 [] s="60" -> 60 [] s="100" -> 100 [] s="1000" -> 1000]
(* ------------------------------------------------------------------ preconditioners                                     *)
Sweepers == {"ssor","sor","gs","jac"}
PrecNames == Sweepers \cup {"dilu","ilu","ildl","richardson","amg"}
Assembled == Block # "free"
Blocked == Block \in {"1","2"}
BlockSize == IF Block="2" THEN 2 ELSE 1
\* -- algebraic multigrid: the parameters the constructor gets
AmgKeysInt == {"smootherIterations","maxLevel","coarsenTarget","diagonalRowIndex","maxAggregateDistance","minAggregateSize","maxAggregateSize","maxAggregateConnectivity","gamma","preSteps","postSteps","verbosity","defaultAggregationDimension"}
AmgKeysReal == {"smootherRelaxation","minCoarseningRate","prolongationDampingFactor","alpha","beta"}
AmgKeysBool == {"additive","criterionSymmetric"}
RECURSIVE Pow(_,_)
Pow(b,e) == IF e=0 THEN 1 ELSE b*Pow(b,e-1)
AmgSizes(cfg) ==    \* <<maximal distance, minimal size, maximal size>>
  LET dist == IF Has(cfg,"maxAggregateDistance") THEN Num[cfg["maxAggregateDistance"]] ELSE 2
      dim == Num[cfg["defaultAggregationDimension"]]
      size == Pow(dist,dim)
      base == IF ~Has(cfg,"defaultAggregationSizeMode") THEN <<2,4,6>>
              ELSE << (dim+1)*(dist-1) + (IF Lower[cfg["defaultAggregationSizeMode"]]="anisotropic" THEN dim-1 ELSE 0), size, (3*size) \div 2 >>
  IN << IF Has(cfg,"maxAggregateDistance") THEN dist ELSE base[1],
        IF Has(cfg,"minAggregateSize") THEN Num[cfg["minAggregateSize"]] ELSE base[2],
        IF Has(cfg,"maxAggregateSize") THEN Num[cfg["maxAggregateSize"]] ELSE base[3] >>
AmgOK(cfg) ==
  /\ Field # "complex" /\ Blocked
  /\ Val(cfg,"smoother","ssor") \in {"ssor","sor","jac","gs","ilu"}
  /\ \A k \in AmgKeysInt: (k="defaultAggregationDimension" /\ ~Has(cfg,"defaultAggregationSizeMode")) \/ IntOK(cfg,k)   \* the dimension is only read with the mode
  /\ \A k \in AmgKeysReal: RealOK(cfg,k)
  /\ \A k \in AmgKeysBool: BoolOK(cfg,k)
  /\ Lower[Val(cfg,"strengthMeasure","diagonal")] \in {"diagonal","rowsum","frobenius","one"}
  /\ Lower[Val(cfg,"strengthMeasure","diagonal")]="diagonal" => Num[Val(cfg,"diagonalRowIndex","0")] < BlockSize
  /\ Lower[Val(cfg,"accumulationMode","none")] \in {"none","atonce","successive"}
  /\ Has(cfg,"defaultAggregationSizeMode") => Lower[cfg["defaultAggregationSizeMode"]] \in {"isotropic","anisotropic"} /\ Has(cfg,"defaultAggregationDimension")
Amg(cfg) == LET z == AmgSizes(cfg) IN
  << "amg", Val(cfg,"smoother","ssor"), Val(cfg,"smootherIterations","1"), Val(cfg,"smootherRelaxation","1"), Val(cfg,"maxLevel","100"), Val(cfg,"coarsenTarget","1000"),
     Val(cfg,"minCoarseningRate","1.2"), Lower[Val(cfg,"accumulationMode","successive")], Val(cfg,"prolongationDampingFactor","1.6"),
     ToString(z[1]), ToString(z[2]), ToString(z[3]), Val(cfg,"maxAggregateConnectivity","15"), Val(cfg,"alpha","0.333333333333333333"), Val(cfg,"beta","1e-5"),
     BoolVal(cfg,"additive","0"), Val(cfg,"gamma","1"), Val(cfg,"preSteps","2"), Val(cfg,"postSteps","2"), Val(cfg,"verbosity","any"),
     BoolVal(cfg,"criterionSymmetric","1"), Lower[Val(cfg,"strengthMeasure","diagonal")], Val(cfg,"diagonalRowIndex","0") >>
\* -- the bare object a name stands for
Bare(name,cfg) ==
  IF ~inited /\ name \notin over THEN Refused
  ELSE IF name \in over THEN << "richardson","3" >>
  ELSE IF name \notin PrecNames THEN Refused
  ELSE IF name="richardson" THEN (IF RealOK(cfg,"relaxation") THEN << "richardson",Val(cfg,"relaxation","1") >> ELSE Refused)
  ELSE IF ~Assembled THEN Refused
  ELSE IF name="amg" THEN (IF AmgOK(cfg) THEN Amg(cfg) ELSE Refused)
  ELSE IF name \in Sweepers THEN (IF IntOK(cfg,"iterations") /\ RealOK(cfg,"relaxation") THEN << name,Val(cfg,"iterations","1"),Val(cfg,"relaxation","1") >> ELSE Refused)
  ELSE IF name="ilu" THEN (IF IntOK(cfg,"n") /\ RealOK(cfg,"relaxation") /\ BoolOK(cfg,"resort") THEN << "ilu",Val(cfg,"n","0"),Val(cfg,"relaxation","1"),BoolVal(cfg,"resort","0") >> ELSE Refused)
  ELSE IF RealOK(cfg,"relaxation") THEN << name,Val(cfg,"relaxation","1") >> ELSE Refused
CatOf(p) == IF p[1]="amg" THEN Cat ELSE IF p[1]="runtime" THEN p[2] ELSE "sequential"
\* -- sequential preconditioners of a parallel operator work on the local part and make the result consistent
Wrapped(p) == IF p=Refused \/ Cat="sequential" \/ CatOf(p)#"sequential" THEN p ELSE << "block" >> \o p
Prec(cfg,rt) ==
  IF rt#NONE THEN Wrapped(<< "runtime",rt >>)
  ELSE IF ~Has(cfg,"type") THEN Refused ELSE Wrapped(Bare(cfg["type"],cfg))
\* the category the preconditioner has after wrapping
PCat(p) == IF p[1]="block" THEN Cat ELSE CatOf(p)
(* ------------------------------------------------------------------ solvers                                             *)
Plain == {"loopsolver","gradientsolver","cgsolver","bicgstabsolver","minressolver"}
Restarted == {"restartedgmressolver","restartedflexiblegmressolver","generalizedpcgsolver"}
Truncated == {"restartedfcgsolver","completefcgsolver"}
Iter == Plain \cup Restarted \cup Truncated
Direct == {"umfpack","superlu","ldl","spqr","cholmod"}
Supports(d) == Assembled /\ Ranks=1 /\
  CASE d="umfpack" -> Field \in {"double","complex"}
    [] d="superlu" -> Field \in {"double","complex"}
    [] d="ldl" -> Field="double" /\ Blocked
    [] d="spqr" -> Field="double" /\ Blocked
    [] d="cholmod" -> Field \in {"double","float"}
Solver(cfg,pcfg,rt) ==
  IF ~inited \/ ~Has(cfg,"type") THEN Refused
  ELSE LET t == cfg["type"] IN
  IF t \in Direct THEN
    IF ~Supports(t) \/ (t#"cholmod" /\ ~IntOK(cfg,"verbose")) THEN Refused ELSE << t,Val(cfg,"verbose","0") >>
  ELSE IF t \notin Iter THEN Refused
  ELSE LET p == Prec(pcfg,rt) IN
  IF p=Refused THEN Refused
  ELSE IF ~Has(cfg,"reduction") \/ ~Has(cfg,"maxit") \/ ~Has(cfg,"verbose") \/ (t \in Restarted /\ ~Has(cfg,"restart")) THEN Refused
  ELSE IF ~RealOK(cfg,"reduction") \/ ~IntOK(cfg,"maxit") \/ ~IntOK(cfg,"verbose") THEN Refused
  ELSE IF (t \in Restarted /\ ~IntOK(cfg,"restart")) \/ (t \in Truncated /\ ~IntOK(cfg,"mmax")) THEN Refused
  ELSE IF PCat(p)#Cat THEN Refused
  ELSE << t,cfg["reduction"],cfg["maxit"],cfg["verbose"], IF t \in Restarted THEN cfg["restart"] ELSE IF t \in Truncated THEN Val(cfg,"mmax","10") ELSE "0" >> \o p
(* ------------------------------------------------------------------ constructors and categories                         *)
Cats == {"sequential","overlapping","nonoverlapping"}
Forms == {"ref2","ref3","ptr3","cfg2","cfg3"}
\* operator, scalar product and preconditioner have to be of one category; without scalar product the sequential one is used
CtorOK(f,o,sp,p) == LET s2 == IF f \in {"ref2","cfg2"} THEN "sequential" ELSE sp IN o=p /\ o=s2
(* ------------------------------------------------------------------ requests                                            *)
PKeys(name) == CASE name \in Sweepers -> {"iterations","relaxation"} [] name="ilu" -> {"n","relaxation","resort"} [] name="amg" -> AmgKeysInt \cup AmgKeysReal \cup AmgKeysBool \cup {"smoother","strengthMeasure","accumulationMode","defaultAggregationSizeMode"}
                 [] OTHER -> {"relaxation"}
Tokens(k) == CASE k \in {"iterations"} -> {NONE,"1","2","3","x"}
              [] k \in {"relaxation","smootherRelaxation"} -> {NONE,"1","0.5","1.25","x"}
              [] k="n" -> {NONE,"0","1","2","1.5.2"}
              [] k="resort" -> {NONE,"true","NO","1","0","yes","x"}
              [] k="reduction" -> {"1e-4","1e-2","0.1",NONE,"x"}
              [] k="maxit" -> {"20","3","0","1",NONE,"1.5"}
              [] k="verbose" -> {"0","1","2",NONE,"x"}
              [] k="restart" -> {"5","1","2",NONE,"x"}
              [] k="mmax" -> {NONE,"1","2","5","x"}
              [] k="smootherIterations" -> {NONE,"2","x"}
              [] k="maxLevel" -> {NONE,"1","2","3","x"}
              [] k="coarsenTarget" -> {"20","5","60","100",NONE,"x"}
              [] k="diagonalRowIndex" -> {NONE,"0","1","5","x"}
              [] k="maxAggregateDistance" -> {NONE,"1","3","4","x"}
              [] k="minAggregateSize" -> {NONE,"2","5","x"}
              [] k="maxAggregateSize" -> {NONE,"4","10","x"}
              [] k="maxAggregateConnectivity" -> {NONE,"3","100","x"}
              [] k="gamma" -> {NONE,"1","2","x"}
              [] k \in {"preSteps","postSteps"} -> {NONE,"0","1","3","x"}
              [] k="verbosity" -> {NONE,"0","2","3","x"}
              [] k="defaultAggregationDimension" -> {NONE,"1","2","3","x"}
              [] k="minCoarseningRate" -> {NONE,"1.5","5","2","x"}
              [] k="prolongationDampingFactor" -> {NONE,"1","1.25","x"}
              [] k="alpha" -> {NONE,"0.25","0.5","0.1","x"}
              [] k="beta" -> {NONE,"0.5","1","x"}
              [] k \in {"additive","criterionSymmetric"} -> {NONE,"true","false","0","1","x"}
              [] k="smoother" -> {NONE,"ssor","sor","jac","gs","ilu","ildl"}
              [] k="strengthMeasure" -> {NONE,"diagonal","rowSum","Frobenius","one","bogus"}
              [] k="accumulationMode" -> {NONE,"none","atOnce","Successive","bogus"}
              [] k="defaultAggregationSizeMode" -> {NONE,"isotropic","Anisotropic","bogus"}
Usual(k) == CASE k="reduction" -> "1e-4" [] k="maxit" -> "20" [] k="verbose" -> "0" [] k="restart" -> "5" [] k="coarsenTarget" -> "20" [] OTHER -> NONE
SKeys(name) == IF name \in Direct THEN {"verbose"} ELSE {"reduction","maxit","verbose"} \cup (IF name \in Restarted THEN {"restart"} ELSE IF name \in Truncated THEN {"mmax"} ELSE {})
With(f,k,v) == [x \in DOMAIN f |-> IF x=k THEN v ELSE f[x]]
Typed(name,f) == ("type" :> name) @@ f
Base(keys) == [k \in keys |-> Usual(k)]
\* all configurations with at most one / two unusual entries
Dev1(keys) == {Base(keys)} \cup {With(Base(keys),k,v) : k \in keys, v \in UNION {Tokens(x) : x \in keys}} 
Legal(f) == \A k \in DOMAIN f: f[k] \in Tokens(k)
Dev1L(keys) == {f \in Dev1(keys): Legal(f)}
Dev2L(keys) == UNION {{With(f,k,v): v \in Tokens(k)} : f \in Dev1L(keys), k \in keys}
PNames == PrecNames \cup {"mine","bogus","SSOR",NONE,"__passed at runtime__"}
SNames == Iter \cup Direct \cup {"bogus","CGSolver",NONE}
PCfgs(name,wide) == {Typed(name,f): f \in (IF name="amg" THEN (IF wide THEN Dev1L(PKeys(name)) ELSE {Base(PKeys(name))}) ELSE IF wide THEN Dev2L(PKeys(name)) ELSE Dev1L(PKeys(name)))}
SCfgs(name,wide) == {Typed(name,f): f \in (IF wide THEN Dev2L(SKeys(name)) ELSE {Base(SKeys(name))})}
SomeP == {Typed("jac",("relaxation" :> "0.5")),Typed("ssor",("iterations" :> "2"))}
Rts == {NONE} \cup Cats
Req(op,cfg,pcfg,rt) == [op |-> op, cfg |-> cfg, pcfg |-> pcfg, rt |-> rt]
Empty == ("type" :> NONE)
\* requests of the graph mode
AllReqs == {Req("prec",Empty,p,NONE): p \in UNION {PCfgs(n,TRUE): n \in PNames}}
      \cup {Req("solver",s,p,NONE): s \in UNION {SCfgs(n,TRUE): n \in SNames}, p \in {Typed("jac",("relaxation" :> "0.5"))}}
      \cup {Req("solver",s,p,NONE): s \in UNION {SCfgs(n,FALSE): n \in SNames}, p \in UNION {PCfgs(n,FALSE): n \in PNames}}
      \cup {Req("solver",s,p,rt): s \in UNION {SCfgs(n,FALSE): n \in SNames}, p \in SomeP \cup {Empty}, rt \in Cats}
      \cup (IF Cat="sequential" THEN {} ELSE {Req("mismatch",Empty,Typed("amg",Base(PKeys("amg"))),f): f \in {"config","direct"}})
FewReqs == {Req("prec",Empty,Typed(n,("relaxation" :> "0.5")),NONE): n \in {"jac","mine","ssor","bogus","__passed at runtime__"}}
      \cup {Req("solver",Typed(n,Base(SKeys(n))),Typed(p,("relaxation" :> "0.5")),rt): n \in {"cgsolver","umfpack"}, p \in {"jac","mine","__passed at runtime__"}, rt \in {NONE,"sequential"}}
\* a random request.  (TLC evaluates a constant LET once and for all: every drawn value depends on the number d of the step)
Rnd(S,d) == RandomElement(IF d<0 THEN {} ELSE S)
RandTok(k,spice,d) == IF Rnd(1..spice,d)=1 THEN Rnd(Tokens(k),d) ELSE LET u == IF d<0 THEN {} ELSE Tokens(k) \ Junk IN IF Rnd(1..2,d)=1 THEN Usual(k) ELSE Rnd(IF k \in {"reduction","maxit","verbose","restart","defaultAggregationDimension"} THEN u \ {NONE,"1.5"} ELSE u \ {"1.5.2","bogus"},d)
RandCfg(name,keys,d) == TLCEval([k \in keys |-> RandTok(k,60,d)])
\* the dimension belongs to the aggregation mode
Mated(f) == IF "defaultAggregationDimension" \in DOMAIN f /\ f["defaultAggregationSizeMode"] # NONE /\ f["defaultAggregationDimension"]=NONE THEN With(f,"defaultAggregationDimension","2") ELSE f
RandP(d) == LET name == Rnd(IF Rnd(1..3,d)=1 THEN {"amg"} ELSE IF Rnd(1..8,d)=1 THEN PNames ELSE PrecNames,d) IN TLCEval(Typed(name,LET f == RandCfg(name,PKeys(name),d) IN IF Rnd(1..8,d)=1 THEN f ELSE Mated(f)))
RandS(d) == LET name == Rnd(IF Rnd(1..10,d)=1 THEN SNames ELSE Iter,d) IN TLCEval(Typed(name,RandCfg(name,SKeys(name),d)))
RandReq(d) == LET solver == Rnd(1..2,d)=1 IN
  IF solver THEN Req("solver",RandS(d),RandP(d),IF Rnd(1..6,d)=1 THEN Rnd(Cats,d) ELSE NONE) ELSE Req("prec",Empty,RandP(d),NONE)
(* ------------------------------------------------------------------ the machine                                         *)
\* "mismatch": a multigrid preconditioner for an operator and a communication object of different categories
Meaning(r) == IF r.op="mismatch" THEN Refused ELSE IF r.op="prec" THEN Prec(r.pcfg,NONE) ELSE Solver(r.cfg,r.pcfg,r.rt)
Log(a,desc) == LET e == [a |-> [op |-> a.op, cfg |-> a.cfg, pcfg |-> a.pcfg, rt |-> a.rt, desc |-> desc], out |-> IF desc=Refused THEN "err" ELSE "ok", extra |-> << >>, obs |-> << 1 >>]
               IN hist' = IF Mode="random" THEN Append(hist,e) ELSE << e >>
Init == inited=FALSE /\ over={} /\ held=FALSE /\ hist = << >>
Control(op) == Req(op,Empty,Empty,NONE)
InitFactories == /\ inited'=TRUE /\ over'=over \ PrecNames /\ held'=held /\ Log(Control("init"),<< "done" >>)
Define(name) == /\ over'=over \cup {name} /\ UNCHANGED <<inited,held>> /\ Log(Req("define",Empty,Typed(name,("relaxation" :> NONE)),NONE),<< "done" >>)
\* creation: a preconditioner passed at runtime is known to the factory only while the solver is made, and lives as long as the solver
Create(r) == /\ UNCHANGED <<inited,over>> /\ held'=FALSE /\ Log(r,Meaning(r))
Ctor == \E n \in Iter, f \in Forms, o \in Cats, sp \in Cats, p \in Cats:
   /\ UNCHANGED <<inited,over,held>>
   /\ Log(Req("ctor",Typed(n,("form" :> f)),Typed(o,("sp" :> sp)),p), IF CtorOK(f,o,sp,p) THEN << "category",o >> ELSE Refused)
Next ==
  IF Mode="ctor" THEN Ctor
  ELSE IF Mode="random" THEN
    /\ Len(hist)<Depth
    /\ IF Len(hist)=0 THEN InitFactories
       ELSE IF Rnd(1..12,Len(hist))=1 THEN (InitFactories \/ Define("mine") \/ Define("jac"))
       ELSE \E r \in {TLCEval(RandReq(Len(hist)))}: Create(r)
  ELSE \/ InitFactories
       \/ Define("mine") \/ Define("jac")
       \/ \E r \in (IF inited /\ over={} THEN AllReqs ELSE FewReqs): Create(r)
(* ------------------------------------------------------------------ properties of the specification                     *)
LastA == hist[Len(hist)]
\* an object is delivered only for a registered name, with every category equal, and says what was configured
Sound == hist = << >> \/ LET e == LastA IN
  /\ (e.a.op="solver" /\ e.out="ok") => inited /\ e.a.cfg["type"]=e.a.desc[1]
  /\ (e.a.op="solver" /\ e.out="ok" /\ e.a.cfg["type"] \in Iter) => PCat(SubSeq(e.a.desc,6,Len(e.a.desc)))=Cat /\ e.a.desc[2]=e.a.cfg["reduction"] /\ e.a.desc[3]=e.a.cfg["maxit"] /\ e.a.desc[4]=e.a.cfg["verbose"]
  /\ (e.a.op="prec" /\ e.out="ok") => e.a.pcfg["type"] \in PrecNames \cup over
\* nothing outlives its request: the factory never keeps a passed preconditioner
Released == ~held
\* same request, same registry: same answer (the meaning does not depend on the history)
Stable == [][hist' # << >> /\ hist'[Len(hist')].a.op \in {"solver","prec"} => hist'[Len(hist')].a.desc=Meaning(hist'[Len(hist')].a)]_vars
View == <<inited,over,held,IF Mode="random" THEN hist ELSE << >> >>
EmitTR == LET h == hist'[Len(hist')] IN PrintT(<<"TR",ToJson([s |-> TLCFP(<<inited,over,held>>), d |-> TLCFP(<<inited',over',held'>>), a |-> h.a, out |-> h.out, extra |-> h.extra, obs |-> h.obs])>>)
EmitBEH == Len(hist)#Depth \/ PrintT(<<"BEH",ToJson(hist)>>)
=============================================================================
