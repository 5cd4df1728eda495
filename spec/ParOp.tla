------------------------------- MODULE ParOp -------------------------------
(* Parallel linear operators, preconditioner wrappers and scalar products on   *)
(* an owner/overlap/copy distribution (attributes as in Comm; 1 owner,         *)
(* 2 overlap, 3 copy, 0 absent).  Numbers are elements of GF(P^2).             *)
(*  (1) machine: every process multiplies what it counts of its local matrix,  *)
(*      sends its partial sums, messages arrive in any order.  At the end each *)
(*      owner/copy entry is the entry of the global product.                   *)
(*  (2) judge of calls recorded from MPI processes.                            *)
EXTENDS FieldLA, FiniteSetsExt, Json, IOUtils
CONSTANTS NP, NG
BC == {1,3}     \* owner or copy: the "interior/border" unknowns of a non-overlapping decomposition
\* which of its entries (g,h) a process uses in the non-overlapping product
Used(at,procs,p,g,h) == /\ at[p][g] \in BC /\ at[p][h] \in BC
   /\ \/ at[p][g]=1 \/ at[p][h]=1
      \/ ~\E q \in procs \ {p} : at[q][g] \in BC /\ at[q][h] \in BC /\ (at[q][g]=1 \/ at[q][h]=1 \/ q<p)
\* the entries whose sum is the global entry: those of the owner of the row and of the owner of the column, as far as they know both;
\* if there are none, every process knowing both (as copies) has the full entry
Main(at,procs,g,h) == {p \in procs : at[p][g] \in BC /\ at[p][h] \in BC /\ (at[p][g]=1 \/ at[p][h]=1)}
Both(at,procs,g,h) == {p \in procs : at[p][g]=3 /\ at[p][h]=3}
SumF(f(_),S) == FoldLeft(LAMBDA acc,k : FAdd(acc,f(k)),ZZ,SetToSeq(S))
Legal(at,procs,L,A,n) == \A g \in 1..n, h \in 1..n : LET S==Main(at,procs,g,h) IN
   IF S # {} THEN A[g][h]=SumF(LAMBDA p : L[p][g][h],S)
   ELSE IF Both(at,procs,g,h)={} THEN A[g][h]=ZZ ELSE \A p \in Both(at,procs,g,h) : L[p][g][h]=A[g][h]
Part(at,procs,L,x,p,g,n) == FoldLeft(LAMBDA acc,h : IF Used(at,procs,p,g,h) THEN FAdd(acc,FMul(L[p][g][h],x[h])) ELSE acc,ZZ,Idx(n))
----
(* (1) *)
VARIABLES at, L, x, y, snd, pend, chunk, i
mv == <<at,L,x,y,snd,pend,chunk,i>>
Proc == 0..NP-1
Glob == 1..NG
Num(p,g,h) == <<(7*p*p+3*g*p+5*h+g*g*h+1)%P,(p+2*g+4*h*h)%P>>
MInit == /\ at \in {a \in [Proc -> [Glob -> 0..3]] : \A g \in Glob : Cardinality({p \in Proc : a[p][g]=1})=1}
         /\ L=[p \in Proc |-> [g \in Glob |-> [h \in Glob |-> IF Main(at,Proc,g,h)={} THEN Num(0,g,h) ELSE Num(p,g,h)]]]
         /\ x=[g \in Glob |-> <<g*g+1,g>>] /\ y=[p \in Proc |-> [g \in Glob |-> ZZ]] /\ snd=y /\ pend={<<-1,-1>>} /\ chunk=0 /\ i=0
Compute == /\ pend={<<-1,-1>>} /\ y'=[p \in Proc |-> TLCEval([g \in Glob |-> Part(at,Proc,L,x,p,g,NG)])] /\ snd'=y'
           /\ pend'={<<p,q>> \in Proc \X Proc : p # q /\ \E g \in Glob : at[p][g] \in BC /\ at[q][g] \in BC} /\ UNCHANGED <<at,L,x,chunk,i>>
Deliver(p,q) == /\ <<p,q>> \in pend /\ p>=0 /\ pend'=pend \ {<<p,q>>}
   /\ y'=[y EXCEPT ![q]=[g \in Glob |-> IF at[p][g] \in BC /\ at[q][g] \in BC THEN FAdd(@[g],snd[p][g]) ELSE @[g]]] /\ UNCHANGED <<at,L,x,snd,chunk,i>>
MNext == Compute \/ \E m \in pend : Deliver(m[1],m[2])
GA == [g \in Glob |-> [h \in Glob |-> LET S==Main(at,Proc,g,h) IN IF S # {} THEN SumF(LAMBDA p : L[p][g][h],S) ELSE IF Both(at,Proc,g,h)={} THEN ZZ ELSE L[CHOOSE p \in Both(at,Proc,g,h) : TRUE][g][h]]]
ProductIsGlobal == pend={} => /\ Legal(at,Proc,L,GA,NG)
                              /\ \A p \in Proc, g \in Glob : at[p][g] \in BC => y[p][g]=Row(GA[g],x)
CountedOnce == pend={} => \A g \in Glob, h \in Glob : Main(at,Proc,g,h)={} => Cardinality({p \in Proc : Used(at,Proc,p,g,h)})<=1
GhostsZero == \A p \in Proc, g \in Glob : ~(at[p][g] \in BC) => y[p][g]=ZZ
----
(* (2) *)
Recs == ndJsonDeserialize(IOEnv.REC)
NR == atoi(IOEnv.NREC)
KC == atoi(IOEnv.CHUNKS)
FunP(a) == TLCEval([p \in 0..Len(a)-1 |-> a[p+1]])
FV(a) == TLCEval([p \in 0..Len(a)-1 |-> FromJ(a[p+1])])
FM(a) == TLCEval([p \in 0..Len(a)-1 |-> FromJM(a[p+1])])
One(q) == <<q[1],q[2]>>
OwnerOf(a,procs,g) == CHOOSE p \in procs : a[p][g]=1
\* y0 + al * s   (y0 = 0 for a plain product)
Upd(d,y0,p,g,s) == IF d.op="apply" THEN s ELSE FAdd(y0[p][g],FMul(One(d.al),s))
OvRow(a,LM,xx,p,g) == FoldLeft(LAMBDA acc,h : IF a[p][h] # 0 THEN FAdd(acc,FMul(LM[p][g][h],xx[p][h])) ELSE acc,ZZ,Idx(Len(xx[p])))
OvOK(d) == LET a==FunP(d.at) LM==FM(d.L) xx==FV(d.x) y0==FV(d.y) z==FV(d.res) n==d.ng procs==0..d.np-1 A==FromJM(d.A) xs==TLCEval([g \in 1..n |-> xx[OwnerOf(a,procs,g)][g]]) IN
   /\ \A p \in procs, g \in 1..n : a[p][g] # 0 => z[p][g]=(IF a[p][g]=3 THEN ZZ ELSE Upd(d,y0,p,g,OvRow(a,LM,xx,p,g)))
   /\ d.legal => \A g \in 1..n : LET p==OwnerOf(a,procs,g) IN z[p][g]=Upd(d,y0,p,g,Row(A[g],xs))
NovOK(d) == LET a==FunP(d.at) LM==FM(d.L) xx==FV(d.x) y0==FV(d.y) z==FV(d.res) n==d.ng procs==0..d.np-1 A==FromJM(d.A) xs==TLCEval([g \in 1..n |-> xx[OwnerOf(a,procs,g)][g]]) IN
   /\ Legal(a,procs,LM,A,n)
   /\ \A p \in procs, g \in 1..n : a[p][g] # 0 => z[p][g]=Upd(d,y0,p,g,IF a[p][g]=2 THEN ZZ ELSE Row(A[g],xs))
\* conjugating product over the owned entries
DotOK(d) == LET a==FunP(d.at) xx==FV(d.x) y0==FV(d.y) procs==0..d.np-1 loc(p) == FoldLeft(LAMBDA acc,g : IF a[p][g]=1 THEN FAdd(acc,FMul(FConj(xx[p][g]),y0[p][g])) ELSE acc,ZZ,Idx(d.ng))
                all(p) == FoldLeft(LAMBDA acc,g : IF a[p][g] # 0 THEN FAdd(acc,FMul(FConj(xx[p][g]),y0[p][g])) ELSE acc,ZZ,Idx(d.ng)) IN
   \A p \in procs : One(d.dot[p+1])=(IF d.op="sequential" THEN all(p) ELSE SumF(loc,procs))
\* squared norms of integer vectors
NormOK(d) == LET a==FunP(d.at) xx==FunP(d.x) procs==0..d.np-1 sq(p,g) == xx[p][g][1]*xx[p][g][1]+xx[p][g][2]*xx[p][g][2]
                 loc(p) == MapThenSumSet(LAMBDA g : sq(p,g),{g \in 1..d.ng : a[p][g]=1}) all(p) == MapThenSumSet(LAMBDA g : sq(p,g),{g \in 1..d.ng : a[p][g] # 0}) IN
   \A p \in procs : d.norm[p+1]=(IF d.op="sequential" THEN all(p) ELSE MapThenSumSet(loc,procs))
\* wrapped preconditioners: inner one is v += M d (local matrices L), v starts as y
Inner(d) == LET a==FunP(d.at) LM==FM(d.L) xx==FV(d.x) y0==FV(d.y) IN
   TLCEval([p \in 0..d.np-1 |-> TLCEval([g \in 1..d.ng |-> IF a[p][g]=0 THEN ZZ ELSE FAdd(y0[p][g],OvRow(a,LM,xx,p,g))])])
\* n symmetric Gauss-Seidel sweeps over the local rows in local order (ord[p]: sequence of present unknowns), relaxation al
GS(a,LM,dd,w,p,v,g) == LET s==FSub(dd[p][g],OvRow(a,LM,[q \in {p} |-> v],p,g)) IN TLCEval([v EXCEPT ![g]=FAdd(@,FMul(w,FDiv(s,LM[p][g][g])))])
RECURSIVE Ssor(_,_,_,_,_,_,_,_)
Ssor(a,LM,dd,w,p,v,o,k) == IF k=0 THEN v ELSE
   Ssor(a,LM,dd,w,p,FoldLeft(LAMBDA u,g : GS(a,LM,dd,w,p,u,g),FoldLeft(LAMBDA u,g : GS(a,LM,dd,w,p,u,g),v,o),Reverse(o)),o,k-1)
SsorAll(d) == LET a==FunP(d.at) LM==FM(d.L) xx==FV(d.x) y0==FV(d.y) IN TLCEval([p \in 0..d.np-1 |-> Ssor(a,LM,xx,One(d.al),p,y0[p],d.ord[p+1],d.it)])
PrecOK(d) == LET a==FunP(d.at) z==FV(d.res) procs==0..d.np-1 v==IF d.op="ssor" THEN SsorAll(d) ELSE Inner(d) IN
   /\ d.calls=(IF d.op="ssor" THEN <<0,0,0>> ELSE <<1,1,1>>) /\ d.cat
   /\ \A p \in procs, g \in 1..d.ng : a[p][g] # 0 =>
       z[p][g]=(IF d.op="novlp" THEN (IF a[p][g]=2 THEN v[p][g] ELSE SumF(LAMBDA q : v[q][g],{q \in procs : a[q][g] \in BC}))
                ELSE v[OwnerOf(a,procs,g)][g])
\* pre: a copyOwnerToAll for the overlapping ones
PreOK(d) == LET a==FunP(d.at) xx==FV(d.x) z==FV(d.res) procs==0..d.np-1 IN
   \A p \in procs, g \in 1..d.ng : a[p][g] # 0 => z[p][g]=(IF d.op="novlp" THEN xx[p][g] ELSE xx[OwnerOf(a,procs,g)][g])
RecOK(d) == CASE d.kind="ov" -> OvOK(d) [] d.kind="nov" -> NovOK(d) [] d.kind="dot" -> DotOK(d) [] d.kind="norm" -> NormOK(d) [] d.kind="prec" -> PrecOK(d) [] d.kind="pre" -> PreOK(d)
JInit == /\ chunk \in 1..KC /\ i=chunk /\ at=0 /\ L=0 /\ x=0 /\ y=0 /\ snd=0 /\ pend=0
JNext == i+KC<=NR /\ i'=i+KC /\ UNCHANGED <<at,L,x,y,snd,pend,chunk>>
RecordOK == i<=NR => RecOK(Recs[i])
=============================================================================
