------------------------------- MODULE Schwarz -------------------------------
(* Overlapping Schwarz preconditioners: a set of subdomains, each with a solver *)
(* for the rows and columns of the subdomain.                                   *)
(*  (1) machine: the subdomains are treated one after the other; an additive    *)
(*      sweep collects the corrections for the initial defect, a multiplicative *)
(*      sweep applies each of them to the defect left over, a symmetric one     *)
(*      goes forward and backward.                                              *)
(*  (2) judge of recorded applications and of recorded subdomains.              *)
EXTENDS Incomplete, SequencesExt
CONSTANTS Deep
\* ---- local problems: dm is the increasing sequence of the unknowns of a subdomain
Sub(M,dm) == TLCEval([r \in DOMAIN dm |-> TLCEval([c \in DOMAIN dm |-> M[dm[r]][dm[c]]])])
Rest(v,dm) == TLCEval([r \in DOMAIN dm |-> v[dm[r]]])
Pos(dm,k) == CHOOSE r \in DOMAIN dm : dm[r]=k
Ext(v,dm,nx) == TLCEval([k \in 1..nx |-> IF \E r \in DOMAIN dm : dm[r]=k THEN v[Pos(dm,k)] ELSE ZZ])
Defect(M,x,f) == VSub(f,MVec(M,x))
ExactSolve(M,dm,r) == Elim([k \in DOMAIN dm |-> [c \in DOMAIN dm |-> M[dm[k]][dm[c]]] \o <<r[dm[k]]>>],Len(dm))
\* correction of a subdomain for the defect r: correct(_,_) maps a subdomain and a defect to local values
\* one sweep over the subdomains in the order given
SweepAdd(M,doms,correct(_,_),w,x,f) == LET r==Defect(M,x,f) nx==Len(x) IN
   VAxpy(x,w,FoldLeft(LAMBDA acc,k : VAdd(acc,Ext(correct(k,r),doms[k],nx)),VZero(nx),Idx(Len(doms))))
SweepMul(M,doms,correct(_,_),w,x,f,order) == LET nx==Len(x) IN
   FoldLeft(LAMBDA acc,k : VAxpy(acc,w,Ext(correct(k,Defect(M,acc,f)),doms[k],nx)),x,order)
\* dir 0: the preconditioner, 1: forward sweep, 2: backward sweep
Schwarz(mode,dir,M,doms,correct(_,_),w,x,f) == LET fw==Idx(Len(doms)) bw==Reverse(Idx(Len(doms))) IN
   CASE mode="add" -> SweepAdd(M,doms,correct,w,x,f)
     [] mode="sym" /\ dir=0 -> SweepMul(M,doms,correct,w,SweepMul(M,doms,correct,w,x,f,fw),f,bw)
     [] OTHER -> SweepMul(M,doms,correct,w,x,f,IF dir=2 THEN bw ELSE fw)
----
(* (1) *)
VARIABLES M, doms, mode, w, x, f, k, v, x0, half
sv == <<M,doms,mode,w,x,f,k,v,x0,half>>
NN == IF Deep THEN 3 ELSE 2
SS == {<<a,0>> : a \in 0..P-1}
Mx2 == {<<<<a,b>>,<<c,d>>>> : a,b,c,d \in SS}
Mx3 == {<<<<a,b,ZZ>>,<<b,<<1,0>>,c>>,<<ZZ,c,d>>>> : a,b,c,d \in SS} \cup {<<<<a,b,<<1,0>>>>,<<ZZ,<<2,0>>,c>>,<<d,<<1,0>>,<<1,0>>>>>> : a,b,c,d \in SS}
SetSeq(S) == SetToSortSeq(S,<)
Covers == {c \in UNION {[1..m -> {SetSeq(S) : S \in (SUBSET (1..NN)) \ {{}}}] : m \in 1..(IF Deep THEN 2 ELSE 3)} : UNION {ToSet(c[q]) : q \in DOMAIN c}=1..NN}
SolvOK(A1,ds) == \A q \in DOMAIN ds : ExactSolve(A1,ds[q],VZero(NN)) # << >>
Xs == IF Deep THEN {[q \in 1..NN |-> <<e,0>>] : e \in 0..1} ELSE {[q \in 1..NN |-> <<e[q],0>>] : e \in [1..NN -> 0..1]}
Fs == IF Deep THEN {[q \in 1..NN |-> <<(e+q)%P,0>>] : e \in 0..P-1} ELSE {[q \in 1..NN |-> <<e[q],0>>] : e \in [1..NN -> 0..P-1]}
SInit == /\ M \in (IF Deep THEN Mx3 ELSE Mx2) /\ doms \in Covers /\ SolvOK(M,doms) /\ mode \in {"add","mul","sym"} /\ w \in {<<1,0>>,<<2,0>>} /\ x0 \in Xs /\ f \in Fs
         /\ x=x0 /\ k=1 /\ v=VZero(NN) /\ half=1 /\ kind=0 /\ n=0 /\ A=0 /\ pat=0 /\ st=0 /\ i=0 /\ chunk=0
KeepAll == UNCHANGED <<M,doms,mode,w,f,x0>> /\ UNCHANGED mv
Ex(q,r) == ExactSolve(M,doms[q],r)
At == IF half=1 THEN k ELSE Len(doms)+1-k
Treat == /\ k<=Len(doms) /\ KeepAll /\ k'=k+1 /\ UNCHANGED half
         /\ IF mode="add" THEN v'=VAdd(v,Ext(Ex(k,Defect(M,x0,f)),doms[k],NN)) /\ x'=x
            ELSE x'=VAxpy(x,w,Ext(Ex(At,Defect(M,x,f)),doms[At],NN)) /\ v'=v
Turn == k=Len(doms)+1 /\ mode="sym" /\ half=1 /\ half'=2 /\ k'=1 /\ UNCHANGED <<x,v>> /\ KeepAll
Finish == k=Len(doms)+1 /\ mode="add" /\ half=1 /\ half'=3 /\ x'=VAxpy(x,w,v) /\ UNCHANGED <<k,v>> /\ KeepAll
SNext == Treat \/ Turn \/ Finish
Done == k=Len(doms)+1 /\ ((mode="mul") \/ (mode="sym" /\ half=2) \/ half=3)
Composed == Done => x=Schwarz(mode,0,M,doms,Ex,w,x0,f)
\* after an unrelaxed exact correction nothing is left on the subdomain treated last
Local == (mode # "add" /\ k>1 /\ w=OO) => LET q==IF half=1 THEN k-1 ELSE Len(doms)+2-k d==Defect(M,x,f) IN \A e \in ToSet(doms[q]) : d[e]=ZZ
\* a solution is never left
Fixed == Defect(M,x0,f)=VZero(NN) => x=x0
\* one subdomain with all unknowns: solved
Whole == (Done /\ w=OO /\ Len(doms)=1 /\ mode # "sym") => Defect(M,x,f)=VZero(NN)
\* disjoint subdomains that do not couple: additive and multiplicative sweeps agree
Uncoupled == (Done /\ mode="mul" /\ \A a,b \in DOMAIN doms : a # b => ToSet(doms[a]) \cap ToSet(doms[b])={} /\ \A r \in ToSet(doms[a]), c \in ToSet(doms[b]) : M[r][c]=ZZ)
   => x=Schwarz("add",0,M,doms,Ex,w,x0,f)
\* a symmetric matrix gives a symmetric preconditioner (additive, symmetric multiplicative)
Unit(q) == [r \in 1..NN |-> IF r=q THEN OO ELSE ZZ]
SymPrec == (k=1 /\ half=1 /\ mode # "mul" /\ f=[q \in 1..NN |-> <<(IF Deep THEN 1 ELSE 0+1)%P,0>>] /\ M=MTr(M)) => LET z==VZero(NN) IN
   \A a,b \in 1..NN : Schwarz(mode,0,M,doms,Ex,w,z,Unit(a))[b]=Schwarz(mode,0,M,doms,Ex,w,z,Unit(b))[a]
\* subdomains with one unknown each: Jacobi and Gauss-Seidel
Points == (Done /\ mode="mul" /\ Len(doms)=NN /\ \A q \in 1..NN : doms[q] = <<q>>) =>
   x=FoldLeft(LAMBDA acc,q : [acc EXCEPT ![q]=FAdd(@,FMul(w,FDiv(Defect(M,acc,f)[q],M[q][q])))],x0,Idx(NN))
----
(* (2) *)
Lift(J) == TLCEval([r \in DOMAIN J |-> TLCEval([c \in DOMAIN J[r] |-> <<J[r][c],0>>])])
LiftV(J) == TLCEval([r \in DOMAIN J |-> <<J[r],0>>])
\* the unknowns of the block rows of a subdomain
Unk(d,bs) == FlattenSeq([q \in DOMAIN d |-> [e \in 1..bs |-> d[q]*bs+e]])
\* factors of the local problems
Loc(d,AA,q) == LET dm==d.doms[q] IN TLCEval([r \in DOMAIN dm |-> {c \in DOMAIN dm : \E e \in DOMAIN d.pat[dm[r]+1] : d.pat[dm[r]+1][e]=dm[c]}])
Factor(d,AA,q) == LET dm==d.doms[q] IN Fact("ilu",[r \in DOMAIN dm |-> [c \in DOMAIN dm |-> Blk(AA,d.bs,dm[r]+1,dm[c]+1)]],Loc(d,AA,q))
AppOK(d) == LET AA==Lift(d.A) ds==TLCEval([q \in DOMAIN d.doms |-> Unk(d.doms[q],d.bs)]) ww==<<d.w,0>> ilu==d.slv="ilu0"
     F==IF ilu THEN TLCEval([q \in DOMAIN ds |-> Factor(d,AA,q)]) ELSE << >>
     Lu(q,r) == FlattenSeq(SolveWith("ilu",F[q],Loc(d,AA,q),[e \in DOMAIN d.doms[q] |-> [a \in 1..d.bs |-> r[d.doms[q][e]*d.bs+a]]]))
     Di(q,r) == ExactSolve(AA,ds[q],r)
     Run(a) == IF ilu THEN Schwarz(d.mode,a.dir,AA,ds,Lu,ww,LiftV(a.x),LiftV(a.b)) ELSE Schwarz(d.mode,a.dir,AA,ds,Di,ww,LiftV(a.x),LiftV(a.b))
     sing==IF ilu THEN \E q \in DOMAIN ds : ~F[q].ok ELSE \E q \in DOMAIN ds : ExactSolve(AA,ds[q],VZero(Len(AA))) = << >> IN
  sing \/ (/\ d.what="ok" /\ d.cat=1 /\ \A t \in DOMAIN d.ap : LET a==d.ap[t] IN a.pure /\ LiftV(a.v)=Run(a))
\* subdomains from aggregates
Nb(d,r) == {d.pat[r+1][e] : e \in DOMAIN d.pat[r+1]} \ {r}
AggDom(d,S) == LET neigh==UNION {Nb(d,r) : r \in S} \ S IN
  CASE d.ov="none" -> S
    [] d.ov="vertex" -> S \cup {r \in neigh : d.map[r+1]>=0}
    [] d.ov="aggregate" -> S \cup neigh \cup {r \in 0..d.nb-1 : d.map[r+1]>=0 /\ \E t \in neigh : d.map[t+1]=d.map[r+1]}
Groups(d) == {{r \in 0..d.nb-1 : d.map[r+1]=a} : a \in {d.map[r+1] : r \in 0..d.nb-1} \ {-1}} \cup {{r} : r \in {q \in 0..d.nb-1 : d.map[q+1]=-1}}
Bag(q) == LET s==ToSet(q) IN [e \in s |-> Cardinality({t \in DOMAIN q : q[t]=e})]
DomOK(d) == IF d.plain /\ d.ov="aggregate" THEN d.what="notimplemented" ELSE
  /\ d.what="ok"
  /\ LET got==TLCEval([q \in DOMAIN d.doms |-> ToSet(d.doms[q])]) IN
     IF d.ov="pairwise" THEN LET pr=={{r,t} : r \in 0..d.nb-1, t \in 0..d.nb-1} IN
           /\ ToSet(got)={e \in pr : Cardinality(e)=2 /\ \E r \in e : \E t \in e : t \in Nb(d,r)} \cup {{r} : r \in {q \in 0..d.nb-1 : Nb(d,q)={}}} /\ Len(got)=Cardinality(ToSet(got))
     ELSE LET gs==SetToSeq(Groups(d)) want==TLCEval([q \in DOMAIN gs |-> AggDom(d,gs[q])]) IN Len(got)=Len(want) /\ Bag(got)=Bag(want)
SRecOK(d) == IF d.kind="app" THEN AppOK(d) ELSE DomOK(d)
SJInit == JInit /\ M=0 /\ doms=0 /\ mode=0 /\ w=0 /\ x=0 /\ f=0 /\ k=0 /\ v=0 /\ x0=0 /\ half=0
SJNext == JNext /\ UNCHANGED sv
SRecordOK == i<=NR => SRecOK(Recs[i])
=============================================================================
