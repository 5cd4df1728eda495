----------------------------- MODULE BCRSMatrix -----------------------------
(* Life cycle of sparse matrix objects (dune/istl/bcrsmatrix.hh), seen      *)
(* through the public interface: build stages of the three build modes,     *)
(* copies, assignments, entry writes and matrix arithmetic over several     *)
(* matrix objects.  Step(objs,a) is the complete transition function: the   *)
(* outcome of call a ("ok", "err" = exception, "any" = both permitted) and   *)
(* the resulting objects.  The state machine draws a from Menu; every       *)
(* behaviour is replayed call by call into the real class and the           *)
(* observation of every object is compared after every call.                *)
(* Indices are 0-based as in the implementation.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

CONSTANTS Objs,       \* object identifiers 1..K
          MaxN, MaxM, \* dimensions: up to MaxN x MaxM
          MinDim,     \* and at least MinDim in both directions
          ModeSet,    \* build modes asked for
          CapSet, AvgSet, BufSet,  \* nonzero counts, averages, buffer percentages offered
          HowSet, SlackSet, \* how complete matrices are built, and by how much sizes are over-estimated
          Vals,       \* values written
          Family,     \* which families of calls are in the menu
          Random,     \* TRUE: draw call parameters with RandomElement (simulation)
          Depth       \* length of the emitted behaviours (simulation)

VARIABLES objs, hist

Undef == -9999
Dead  == [alive |-> FALSE]
Fresh == [alive |-> TRUE, mode |-> "unknown", stage |-> "notAllocated", n |-> 0, m |-> 0,
          cap |-> 0, sz |-> <<>>, ent |-> <<>>, ci |-> -1, cip |-> {}, cnt |-> 0, avg |-> 0, buf |-> -1, poison |-> FALSE]

NoEnt == [p \in {} |-> 0]
Pos(o) == DOMAIN o.ent
RowOf(o,i) == {p \in Pos(o) : p[1]=i}
Put(f,p,v) == [x \in DOMAIN f \cup {p} |-> IF x=p THEN v ELSE f[x]]
AddPos(f,p) == IF p \in DOMAIN f THEN f ELSE Put(f,p,Undef)
Mul(v,k) == IF v=Undef THEN Undef ELSE v*k
RowSum(s) == LET F[i \in 0..Len(s)] == IF i=0 THEN 0 ELSE F[i-1]+s[i] IN F[Len(s)]
(* entries beyond the estimated average go to the overflow area (implicit mode) *)
Overflow(o) == LET F[i \in 0..o.n] == IF i=0 THEN 0 ELSE F[i-1] + (LET s==Cardinality(RowOf(o,i-1)) IN IF s>o.avg THEN s-o.avg ELSE 0)
               IN F[o.n]
MaxRow(o) == LET F[i \in 0..o.n] == IF i=0 THEN 0 ELSE LET s==Cardinality(RowOf(o,i-1)) IN IF s>F[i-1] THEN s ELSE F[i-1] IN F[o.n]
(* room reserved by the compression buffer: a compression that needs no more must succeed *)
Reserved(o) == (o.n*o.avg*o.buf) \div 100
Built(o) == o.alive /\ o.stage="built"
Alloc(o,n,m,cap) == [o EXCEPT !.n=n, !.m=m, !.cap=cap, !.stage="building", !.sz=[k \in 1..n |-> 0], !.ent=NoEnt, !.ci=-1, !.cip={}, !.cnt=0, !.poison=FALSE]
Empty(o) == [o EXCEPT !.n=0, !.m=0, !.ent=NoEnt, !.stage="notAllocated", !.ci=-1, !.cip={}, !.cnt=0]
CopyOf(s,t) == [t EXCEPT !.alive=TRUE, !.mode="copy", !.stage="built", !.n=s.n, !.m=s.m, !.cap=0, !.ent=s.ent, !.ci=-1, !.cip={}, !.poison=FALSE, !.sz = <<>>,
                         !.avg=s.avg, !.buf=s.buf]

(* ---- the transition function: [out, o] for the addressed object -------- *)
Err(o) == [out |-> "err", o |-> o]
Ok(o)  == [out |-> "ok",  o |-> o]
Step(os,a) ==
 LET o == os[a.o] IN
 CASE a.op="default"   -> Ok(Fresh)
   [] a.op="ctor"      -> IF a.mode="implicit" THEN Err(o)                                  \* implicit needs parameters
                          ELSE Ok(Alloc([Fresh EXCEPT !.mode=a.mode],a.n,a.m,a.cap))
   [] a.op="ctorimp"   -> IF a.buf<0 THEN Err(o) ELSE Ok(Alloc([Fresh EXCEPT !.mode="implicit",!.avg=a.avg,!.buf=a.buf],a.n,a.m,0))
   [] a.op="destroy"   -> Ok(Dead)
   [] a.op="setmode"   -> IF o.stage="notAllocated" THEN Ok([o EXCEPT !.mode=a.mode])
                          ELSE IF o.stage="building" /\ o.mode \in {"unknown","random","row_wise"} /\ a.mode \in {"row_wise","random"}
                          THEN Ok([o EXCEPT !.mode=a.mode]) ELSE Err(o)
   [] a.op="setsize"   -> IF o.mode="implicit" THEN IF a.cap>0 \/ o.buf<0 THEN Err([Empty(o) EXCEPT !.poison=TRUE]) ELSE Ok(Alloc(o,a.n,a.m,0))
                          ELSE Ok(Alloc(o,a.n,a.m,a.cap))
   [] a.op="setimp"    -> IF a.buf<0 \/ o.stage#"notAllocated" THEN Err(o) ELSE Ok([o EXCEPT !.avg=a.avg,!.buf=a.buf])
   \* --- random mode
   [] a.op="rowsize"   -> IF o.mode#"random" \/ o.stage#"building" THEN Err(o) ELSE Ok([o EXCEPT !.sz[a.i+1]=a.s])
   [] a.op="incsize"   -> IF o.mode#"random" \/ o.stage#"building" THEN Err(o) ELSE Ok([o EXCEPT !.sz[a.i+1]=@+a.s])
   [] a.op="endsizes"  -> IF o.mode#"random" \/ o.stage#"building" THEN Err(o)
                          ELSE IF o.cap>0 /\ o.cap<RowSum(o.sz) THEN Err(o) ELSE Ok([o EXCEPT !.stage="rowSizesBuilt"])
   [] a.op="addindex"  -> IF o.mode#"random" \/ o.stage#"rowSizesBuilt" \/ a.j>=o.m THEN Err(o)
                          ELSE IF <<a.i,a.j>> \in Pos(o) THEN Ok(o)
                          ELSE IF Cardinality(RowOf(o,a.i))=o.sz[a.i+1] THEN Err(o)
                          ELSE Ok([o EXCEPT !.ent=AddPos(@,<<a.i,a.j>>)])
   [] a.op="setindices"-> Ok([o EXCEPT !.ent=[p \in (Pos(o) \ RowOf(o,a.i)) \cup {<<a.i,a.js[k]>> : k \in DOMAIN a.js} |-> Undef]])
   [] a.op="endindices"-> IF o.mode#"random" \/ o.stage#"rowSizesBuilt" THEN Err(o) ELSE Ok([o EXCEPT !.stage="built"])
   \* --- row-wise mode
   [] a.op="createbegin"-> LET o1 == IF o.mode="unknown" /\ o.stage="building" THEN [o EXCEPT !.mode="row_wise"] ELSE o IN
                          IF o1.n=0 /\ o1.stage="built" /\ o1.mode \in {"row_wise","copy"} THEN [out |-> "any", o |-> o1]  \* nothing to create
                          ELSE IF o1.stage#"building" \/ o1.mode#"row_wise" THEN Err(o1)
                          ELSE IF o1.n=0 THEN Ok([o1 EXCEPT !.stage="built"]) ELSE Ok([o1 EXCEPT !.ci=0])
   [] a.op="insert"    -> Ok([o EXCEPT !.cip=@ \cup {a.j}])
   [] a.op="next"      -> LET c == o.cnt+Cardinality(o.cip) IN
                          IF o.cap>0 /\ c>o.cap THEN Err([o EXCEPT !.poison=TRUE,!.ci=-1])
                          ELSE LET e == [p \in Pos(o) \cup {<<o.ci,j>> : j \in o.cip} |-> Undef] IN
                               Ok([o EXCEPT !.ent=e, !.cnt=c, !.cip={}, !.ci=IF o.ci+1=o.n THEN -1 ELSE o.ci+1,
                                            !.stage=IF o.ci+1=o.n THEN "built" ELSE "building"])
   \* --- implicit mode
   [] a.op="entry"     -> IF o.mode#"implicit" \/ o.stage#"building" \/ a.i>=o.n \/ a.j>=o.m THEN Err(o)
                          ELSE Ok([o EXCEPT !.ent=Put(@,<<a.i,a.j>>,a.v)])
   [] a.op="entryadd"  -> Ok([o EXCEPT !.ent=Put(@,<<a.i,a.j>>,@[<<a.i,a.j>>]+a.v)])
   [] a.op="compress"  -> IF o.mode#"implicit" \/ o.stage#"building" THEN Err(o)
                          ELSE [out |-> IF Overflow(o)<=Reserved(o) THEN "ok" ELSE "any",
                                o |-> [o EXCEPT !.stage="built", !.poison = Overflow(o)>Reserved(o)]]
   \* --- access and arithmetic
   [] a.op="write"     -> IF ~Built(o) \/ <<a.i,a.j>> \notin Pos(o) THEN Err(o) ELSE Ok([o EXCEPT !.ent[<<a.i,a.j>>]=a.v])
   [] a.op="fill"      -> IF o.stage \notin {"notAllocated","built"} THEN Err(o) ELSE Ok([o EXCEPT !.ent=[p \in Pos(o) |-> a.v]])
   [] a.op="nonzeroes" -> Ok(o)
   [] a.op="scale"     -> IF ~Built(o) THEN Err(o) ELSE Ok([o EXCEPT !.ent=[p \in Pos(o) |-> Mul(o.ent[p],a.v)]])
   [] a.op="div"       -> IF ~Built(o) THEN Err(o) ELSE Ok(o)     \* division by one after scaling: value-neutral
   [] a.op="neg"       -> IF ~Built(o) THEN Err(o) ELSE Ok([o EXCEPT !.ent=[p \in Pos(o) |-> Mul(o.ent[p],-1)]])
   [] a.op="axpy"      -> LET b == os[a.p] IN
                          IF ~Built(o) \/ ~Built(b) \/ o.n#b.n \/ o.m#b.m THEN Err(o)
                          ELSE Ok([o EXCEPT !.ent=[p \in Pos(o) |-> IF p \notin Pos(b) THEN o.ent[p]
                                                    ELSE IF o.ent[p]=Undef \/ b.ent[p]=Undef THEN Undef ELSE o.ent[p]+a.v*b.ent[p]]])
   [] a.op="copyctor"  -> LET b == os[a.p] IN IF b.stage \notin {"notAllocated","built"} THEN Err(o) ELSE Ok(CopyOf(b,Fresh))
   [] a.op="assign"    -> LET b == os[a.p] IN
                          IF a.p=a.o THEN Ok(o)
                          ELSE IF b.stage \notin {"notAllocated","built"} \/ o.stage \notin {"notAllocated","built"} THEN Err(o)
                          ELSE Ok([CopyOf(b,o) EXCEPT !.avg=o.avg,!.buf=o.buf])
   \* --- complete builds in one call of the harness (any mode)
   [] a.op="build"     -> Ok([Alloc([Fresh EXCEPT !.mode=a.how \o ToString(a.slack)],a.n,a.m,0) EXCEPT !.stage="built", !.ent=[p \in a.pat |-> Undef]])

(* ---- what is observed of an object -------------------------------------- *)
SortedCols(o,i) == LET S == {p[2] : p \in RowOf(o,i)}
                       F[k \in 0..o.m] == IF k=0 THEN <<>> ELSE IF (k-1) \in S THEN Append(F[k-1],<<k-1,o.ent[<<i,k-1>>]>>) ELSE F[k-1]
                   IN F[o.m]
Obs(o) == IF ~o.alive THEN <<"dead">>
          ELSE IF o.stage#"built" THEN <<o.stage,o.n,o.m>>
          ELSE <<o.stage,o.n,o.m,Cardinality(Pos(o)),[i \in 1..o.n |-> SortedCols(o,i-1)]>>
Extra(a,r) == IF a.op="compress" /\ r.out="ok" THEN <<Overflow(r.o),MaxRow(r.o),Cardinality(Pos(r.o))>>
              ELSE IF a.op="nonzeroes" THEN <<Cardinality(Pos(r.o))>> ELSE <<>>

(* ---- the menu of calls that may be made (calls with undefined behaviour by contract are never made) *)
Pick(S) == IF Random /\ S#{} THEN {RandomElement(S)} ELSE S
Modes == ModeSet
Dims == (MinDim..MaxN) \X (MinDim..MaxM)
Perms(S) == {f \in [1..Cardinality(S) -> S] : \A x,y \in 1..Cardinality(S) : x#y => f[x]#f[y]}
SubPats(n,m) == SUBSET ((0..n-1) \X (0..m-1))
RandPat(n,m) == TLCEval({p \in (0..n-1) \X (0..m-1) : RandomElement(1..100)<=55})
BuildMenu(i) ==
 LET o == objs[i] IN
 (IF ~o.alive THEN
    {[op|->"default",o|->i]}
    \cup {[op|->"ctor",o|->i,n|->d[1],m|->d[2],cap|->c,mode|->md] : d \in Pick(Dims), c \in Pick(CapSet), md \in Pick(Modes \ {"implicit"})}
    \cup {[op|->"ctorimp",o|->i,n|->d[1],m|->d[2],avg|->av,buf|->b] : md \in {"implicit"} \cap Modes, d \in Pick(Dims), av \in Pick(AvgSet), b \in Pick(BufSet \cup {-50})}
  ELSE
    {[op|->"destroy",o|->i]}
    \cup {[op|->"setsize",o|->i,n|->d[1],m|->d[2],cap|->c] : d \in Pick(Dims), c \in Pick(CapSet)}
    \cup IF o.poison THEN {} ELSE
    ((IF o.ci=-1 THEN {[op|->"setmode",o|->i,mode|->md] : md \in Pick(Modes)} ELSE {})
    \cup {[op|->"setimp",o|->i,avg|->av,buf|->b] : av \in Pick(AvgSet), b \in Pick(BufSet \cup {-50})}
    \cup (IF o.n>0 THEN {[op|->"rowsize",o|->i,i|->r,s|->s] : r \in Pick(0..o.n-1), s \in Pick(0..o.m)}
                   \cup {[op|->"incsize",o|->i,i|->r,s|->s] : r \in Pick({r \in 0..o.n-1 : o.sz[r+1]<=o.m}), s \in Pick({1})} ELSE {})
    \cup {[op|->"endsizes",o|->i],[op|->"endindices",o|->i],[op|->"compress",o|->i]}
    \cup (IF o.n>0 /\ (o.stage#"rowSizesBuilt" \/ o.mode="random")
          THEN {[op|->"addindex",o|->i,i|->r,j|->j] : r \in Pick(0..o.n-1), j \in Pick(0..o.m)} ELSE {})
    \cup (IF o.stage="rowSizesBuilt" /\ o.n>0
          THEN UNION {{[op|->"setindices",o|->i,i|->r,js|->js,sorted|->(\A x \in 1..Len(js)-1 : js[x]<js[x+1])] :
                        js \in Pick(UNION {Perms(S) : S \in {S \in SUBSET (0..o.m-1) : Cardinality(S)=o.sz[r+1]}})} :
                      r \in Pick({r \in 0..o.n-1 : o.sz[r+1]<=o.m /\ o.sz[r+1]>0})} ELSE {})
    \cup (IF o.ci=-1 THEN {[op|->"createbegin",o|->i]} ELSE {[op|->"next",o|->i]})
    \cup (IF o.ci>=0 /\ o.m>0 THEN {[op|->"insert",o|->i,j|->j] : j \in Pick(0..o.m-1)} ELSE {})
    \cup {[op|->"entry",o|->i,i|->r,j|->j,v|->v] : r \in Pick(0..o.n), j \in Pick(0..o.m), v \in Pick(Vals)}
    \cup (IF o.mode="implicit" /\ o.stage="building"
          THEN {[op|->"entryadd",o|->i,i|->p[1],j|->p[2],v|->v] : p \in Pick({p \in Pos(o) : o.ent[p] \in 1..(IF Random THEN 99 ELSE 3)}), v \in Pick(Vals)} ELSE {})))
(* once a row-wise creation or an index phase is running, stray setmode/rowsize... calls stay in the menu: they must be refused *)
WriteMenu(i) ==
 LET o == objs[i] IN
 IF ~o.alive \/ o.poison \/ o.ci>=0 THEN {} ELSE
    {[op|->"fill",o|->i,v|->v] : v \in Pick(Vals)} \cup
    (IF o.stage="built" THEN
    {[op|->"nonzeroes",o|->i],[op|->"div",o|->i]}
    \cup (IF \E p \in Pos(o) : o.ent[p] \notin {Undef} /\ (o.ent[p]>5000 \/ o.ent[p] < -5000) THEN {}
          ELSE {[op|->"scale",o|->i,v|->v] : v \in Pick(Vals)})
    \cup {[op|->"neg",o|->i]}
    \cup (IF o.n>0 /\ o.m>0 THEN {[op|->"write",o|->i,i|->r,j|->j,v|->v] : r \in Pick(0..o.n-1), j \in Pick(0..o.m-1), v \in Pick(Vals)} ELSE {})
    ELSE {[op|->"scale",o|->i,v|->v] : v \in Pick(Vals)})
CopyMenu(i) ==
 LET o == objs[i]
     Src == {k \in Objs : objs[k].alive /\ ~objs[k].poison /\ objs[k].ci=-1} IN
 (IF ~o.alive THEN {[op|->"copyctor",o|->i,p|->k] : k \in Src}
  ELSE IF o.poison \/ o.ci>=0 THEN {} ELSE
     {[op|->"assign",o|->i,p|->k] : k \in Src}
     \cup {[op|->"axpy",o|->i,p|->k,v|->v] : k \in {k \in Src : (Built(o) /\ Built(objs[k]) /\ o.n=objs[k].n /\ o.m=objs[k].m) =>
                 (Pos(objs[k]) \subseteq Pos(o) /\ \A p \in Pos(o) : o.ent[p]<=5000 /\ o.ent[p]>=-9999 /\ (p \in Pos(objs[k]) => objs[k].ent[p]<=5000))}, v \in Pick(Vals)}
     \cup {[op|->"destroy",o|->i]})
MenuAll(i) ==
  (IF "build" \in Family THEN BuildMenu(i) ELSE {}) \cup (IF "write" \in Family THEN WriteMenu(i) ELSE {})
  \cup (IF "copy" \in Family THEN CopyMenu(i) ELSE {})
  \cup (IF "quick" \in Family /\ ~objs[i].alive THEN
     UNION {{[op|->"build",o|->i,n|->e[1],m|->e[2],how|->h,slack|->s,pat|->pt] :
          pt \in (IF Random THEN {RandPat(e[1],e[2])} ELSE SubPats(e[1],e[2])),
          h \in Pick(HowSet), s \in Pick(SlackSet)} : e \in Pick(Dims)} ELSE {})

Call(a) == LET r == Step(objs,a) IN
  /\ objs' = [objs EXCEPT ![a.o]=r.o]
  /\ hist' = Append(hist,[a |-> a, out |-> r.out, extra |-> Extra(a,r), obs |-> [k \in Objs |-> IF k # a.o /\ objs'[k].alive /\ objs'[k].poison THEN <<"spoiled">> ELSE Obs(objs'[k])]])   \* what a failed set-up left behind is open

Init == objs = [k \in Objs |-> Dead] /\ hist = <<>>
(* Simulation prefers calls that make progress and postpones the calls that close a phase. *)
Prefer(M) == LET G == {a \in M : a.op \notin {"destroy","setsize","setmode","setimp","fill","nonzeroes","copyctor","default"} /\ Step(objs,a).out="ok"}
                 C == {"endsizes","endindices","compress","next"}
                 H == IF RandomElement(1..100)<=75 /\ \E a \in G : a.op \notin C THEN {a \in G : a.op \notin C} ELSE G
             IN IF H#{} /\ RandomElement(1..100)<=85 THEN H ELSE M
\* (the test of hist keeps TLC from drawing the object once and for all)
Next == \E i \in (IF Len(hist)>=0 THEN Pick(Objs) ELSE {}) : \E a \in (IF Random THEN Pick(Prefer(MenuAll(i))) ELSE MenuAll(i)) : Call(a)
Spec == Init /\ [][Next]_<<objs,hist>>

(* ---- properties of the specification itself ------------------------------ *)
TypeOK == \A k \in Objs : objs[k].alive =>
   /\ objs[k].stage \in {"notAllocated","building","rowSizesBuilt","built"}
   /\ \A p \in Pos(objs[k]) : p[1] \in 0..objs[k].n-1 /\ p[2] \in 0..objs[k].m-1
   /\ (objs[k].stage="rowSizesBuilt" => objs[k].mode="random")
RowsFit == \A k \in Objs : (objs[k].alive /\ objs[k].stage="rowSizesBuilt") => \A i \in 0..objs[k].n-1 : Cardinality(RowOf(objs[k],i))<=objs[k].sz[i+1]
(* a call addresses one object: all others keep their observation (copies are independent) *)
Isolation == [][\A k \in Objs : (hist' # hist /\ k # hist'[Len(hist')].a.o) => objs'[k]=objs[k]]_<<objs,hist>>
(* refused calls change nothing observable, except that a refused re-sizing has already dropped the old matrix *)
RefusalHarmless == [][(hist' # hist /\ hist'[Len(hist')].out="err" /\ hist'[Len(hist')].a.op \notin {"setsize","createbegin","next"}) => objs'=objs]_<<objs,hist>>
(* a built matrix only changes its pattern when it is rebuilt, assigned or destroyed *)
PatternStable == [][\A k \in Objs : (Built(objs[k]) /\ Built(objs'[k]) /\ hist'#hist /\ hist'[Len(hist')].a.op \notin {"assign","setsize","build","copyctor"})
                       => Pos(objs'[k])=Pos(objs[k])]_<<objs,hist>>

(* value sets for configurations (negative literals are not possible there) *)
ValsA == {1,2,3,-4,5}
ValsB == {1,-1,2,-3}
ValsC == {-1}

(* ---- emission ------------------------------------------------------------- *)
View == objs
(* used as ACTION_CONSTRAINT: one line per transition of the state graph *)
EmitTransitions == LET h == hist'[Len(hist')] IN PrintT(<<"TR",ToJson([s |-> TLCFP(objs), d |-> TLCFP(objs'), a |-> h.a, out |-> h.out, extra |-> h.extra, obs |-> h.obs])>>)
EmitAtDepth == Len(hist)#Depth \/ PrintT(<<"BEH",ToJson(hist)>>)
SmallVals == \A k \in Objs : objs[k].alive => \A p \in Pos(objs[k]) : objs[k].ent[p] \in {Undef,-1,0,1}
DepthBound == Len(hist)<Depth
=============================================================================
