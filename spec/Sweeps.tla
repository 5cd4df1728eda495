------------------------------- MODULE Sweeps -------------------------------
(* One step of Jacobi / Gauss-Seidel / SOR on a block matrix of any block     *)
(* depth, block triangular and block diagonal solves, and the preconditioners *)
(* built from them.  The matrix is flat; cuts[l] are the offsets of the       *)
(* blocks of level l (1 = finest), a block of level 0 is solved exactly.      *)
(*  (1) machine over a tiny field: sweep after sweep; invariants: the exact   *)
(*      solution is a fixed point, the step satisfies its defining equation,  *)
(*      it is affine linear in (x,b), backward is forward on the reversed     *)
(*      system.                                                               *)
(*  (2) judge of recorded applications of the real kernels.                   *)
EXTENDS FieldLA, Json, IOUtils
CONSTANTS MaxN, Deep   \* (1)
Blocks(cuts,l,lo,hi,rev) ==       \* blocks <<s,e>> of level l within the rows lo..hi
  LET c==SelectSeq(cuts[l],LAMBDA o : o>=lo-1 /\ o<=hi)
      f==TLCEval([k \in 1..Len(c)-1 |-> <<c[k]+1,c[k+1]>>]) IN IF rev THEN Reverse(f) ELSE f
\* restriction of a vector (function on 1..n) to a block: v on s..e, x elsewhere
Put(x,s,e,v) == TLCEval([k \in DOMAIN x |-> IF k \in s..e THEN v[k] ELSE x[k]])
Zero(x) == TLCEval([k \in DOMAIN x |-> ZZ])
\* d_i - sum over the columns of S (a sequence) of A_ij x_j for i in s..e
Def(A,x,d,s,e,S) == TLCEval([k \in DOMAIN d |-> IF k \in s..e
     THEN FSub(d[k],FoldLeft(LAMBDA acc,j : FAdd(acc,FMul(A[k][j],x[j])),ZZ,S)) ELSE d[k]])
\* ---- dense solve of the rows/columns s..e; singular: the result is <<>>
SolveBlk(A,s,e,d) == LET r==Elim([k \in 1..e-s+1 |-> [j \in 1..e-s+2 |-> IF j=e-s+2 THEN d[s+k-1] ELSE A[s+k-1][s+j-1]]],e-s+1) IN
   IF r = << >> THEN [k \in DOMAIN d |-> ZZ] ELSE TLCEval([k \in DOMAIN d |-> IF k \in s..e THEN r[k-s+1] ELSE ZZ])
Singular(A,s,e) == Elim([k \in 1..e-s+1 |-> [j \in 1..e-s+2 |-> IF j=e-s+2 THEN ZZ ELSE A[s+k-1][s+j-1]]],e-s+1) = << >>
\* ---- steps of iteration methods, recursing over l block levels
RECURSIVE GS(_,_,_,_,_,_,_,_), SOR(_,_,_,_,_,_,_,_,_), JAC(_,_,_,_,_,_,_,_)
GS(A,cuts,l,lo,hi,x,b,w) == IF l=0 THEN Put(x,lo,hi,SolveBlk(A,lo,hi,b)) ELSE
  LET y==FoldLeft(LAMBDA acc,blk : LET rhs==Def(A,acc,b,blk[1],blk[2],Rng(lo,blk[1]-1)\o Rng(blk[2]+1,hi)) IN
                    Put(acc,blk[1],blk[2],GS(A,cuts,l-1,blk[1],blk[2],acc,rhs,w)),x,Blocks(cuts,l,lo,hi,FALSE)) IN
  Put(x,lo,hi,TLCEval([k \in DOMAIN x |-> FAdd(FMul(w,y[k]),FMul(FSub(OO,w),x[k]))]))
SOR(A,cuts,l,lo,hi,x,b,w,rev) == IF l=0 THEN Put(x,lo,hi,SolveBlk(A,lo,hi,b)) ELSE
  FoldLeft(LAMBDA acc,blk : LET rhs==Def(A,acc,b,blk[1],blk[2],Rng(lo,hi))
                                v==SOR(A,cuts,l-1,blk[1],blk[2],Zero(x),rhs,w,rev) IN
                    Put(acc,blk[1],blk[2],VAxpy(acc,w,v)),x,Blocks(cuts,l,lo,hi,rev))
JAC(A,cuts,l,lo,hi,x,b,w) == IF l=0 THEN Put(x,lo,hi,SolveBlk(A,lo,hi,b)) ELSE
  FoldLeft(LAMBDA acc,blk : LET rhs==Def(A,x,b,blk[1],blk[2],Rng(lo,hi))
                                v==JAC(A,cuts,l-1,blk[1],blk[2],Zero(x),rhs,w) IN
                    Put(acc,blk[1],blk[2],VAxpy(x,w,v)),x,Blocks(cuts,l,lo,hi,FALSE))
\* ---- block triangular solves (diag=FALSE: unit diagonal), block diagonal solve
RECURSIVE TRI(_,_,_,_,_,_,_,_,_), BD(_,_,_,_,_,_,_)
TRI(A,cuts,l,lo,hi,d,w,diag,up) == IF l=0 THEN VScale(w,IF diag THEN SolveBlk(A,lo,hi,d) ELSE d) ELSE
  FoldLeft(LAMBDA acc,blk : LET rhs==Def(A,acc,d,blk[1],blk[2],IF up THEN Rng(blk[2]+1,hi) ELSE Rng(lo,blk[1]-1)) IN
                    Put(acc,blk[1],blk[2],TRI(A,cuts,l-1,blk[1],blk[2],rhs,w,diag,up)),Zero(d),Blocks(cuts,l,lo,hi,up))
BD(A,cuts,l,lo,hi,d,w) == IF l=0 THEN VScale(w,SolveBlk(A,lo,hi,d)) ELSE
  FoldLeft(LAMBDA acc,blk : Put(acc,blk[1],blk[2],BD(A,cuts,l-1,blk[1],blk[2],d,w)),Zero(d),Blocks(cuts,l,lo,hi,FALSE))
\* ---- one call
Sweep(m,A,cuts,l,x,b,w) == LET n==Len(b) IN
  CASE m="dbgs" -> GS(A,cuts,l,1,n,x,b,w) [] m="bsorf" -> SOR(A,cuts,l,1,n,x,b,w,FALSE) [] m="bsorb" -> SOR(A,cuts,l,1,n,x,b,w,TRUE)
    [] m="dbjac" -> JAC(A,cuts,l,1,n,x,b,w)
    [] m="bltsolve" -> TRI(A,cuts,l,1,n,b,w,TRUE,FALSE) [] m="butsolve" -> TRI(A,cuts,l,1,n,b,w,TRUE,TRUE)
    [] m="ubltsolve" -> TRI(A,cuts,l,1,n,b,w,FALSE,FALSE) [] m="ubutsolve" -> TRI(A,cuts,l,1,n,b,w,FALSE,TRUE)
    [] m="bdsolve" -> BD(A,cuts,l,1,n,b,w)
\* the preconditioners: it sweeps of
PrecSeq(p) == CASE p="ssor" -> <<"bsorf","bsorb">> [] p \in {"sor","sorf","gs"} -> <<"bsorf">> [] p="sorb" -> <<"bsorb">> [] p="jac" -> <<"dbjac">>
RECURSIVE Times(_,_,_,_,_,_,_,_)
Times(seq,A,cuts,l,x,b,w,it) == IF it=0 THEN x ELSE Times(seq,A,cuts,l,FoldLeft(LAMBDA acc,m : Sweep(m,A,cuts,l,acc,b,w),x,seq),b,w,it-1)
----
(* (1) *)
VARIABLES A, cuts, l, m, x, xs, b, w, k, chunk, i
mv == <<A,cuts,l,m,x,xs,b,w,k,chunk,i>>
F0 == {<<u,0>> : u \in 0..P-1}
Cuts(n) == CASE n=1 -> {<<<<0,1>>>>} [] n=2 -> {<<<<0,1,2>>>>,<<<<0,2>>>>,<<<<0,1,2>>,<<0,2>>>>} [] n=3 -> {<<<<0,1,2,3>>,<<0,1,3>>>>,<<<<0,2,3>>>>,<<<<0,1,2,3>>,<<0,2,3>>>>}
Mats(n) == IF n<3 THEN {TLCEval([r \in 1..n |-> [c \in 1..n |-> f[(r-1)*n+c]]]) : f \in [1..n*n -> F0]}
           ELSE {TLCEval([r \in 1..n |-> [c \in 1..n |-> IF r=c THEN d[r] ELSE IF r>c THEN o[1] ELSE o[2]]]) : d \in [1..n -> {OO,<<2,0>>}], o \in [1..2 -> (IF Deep THEN F0 ELSE {OO,<<2,0>>})]}
OKM(n) == {q \in Mats(n) \X Cuts(n) : \A bl \in 1..Len(q[2][1])-1 : ~Singular(q[1],q[2][1][bl]+1,q[2][1][bl+1])}
Ms == {"dbgs","bsorf","bsorb","dbjac"}
MInit == \E n \in 1..MaxN : \E q \in OKM(n) : /\ A=q[1] /\ cuts=q[2] /\ l=Len(q[2]) /\ m \in Ms /\ w \in {OO,<<2,0>>}
     /\ xs \in (IF Deep THEN [1..n -> {ZZ,OO,<<2,1>>}] ELSE {[j \in 1..n |-> <<j%P,1>>]}) /\ x \in {Zero(xs),[j \in 1..n |-> <<(j*j)%P,2>>]} /\ b=MVec(A,xs) /\ k=0 /\ chunk=0 /\ i=0
MNext == k<2 /\ x'=Sweep(m,A,cuts,l,x,b,w) /\ k'=k+1 /\ UNCHANGED <<A,cuts,l,m,xs,b,w,chunk,i>>
FixedPoint == Sweep(m,A,cuts,l,xs,b,w)=xs
Linear == LET n==Len(b) e==VSub(x,xs) z==VZero(n) IN VSub(Sweep(m,A,cuts,l,x,b,w),xs)=Sweep(m,A,cuts,l,e,z,w)
\* defining equations of one level
NN == Len(b)
BlkOf(j) == CHOOSE q \in 1..Len(cuts[1])-1 : cuts[1][q]<j /\ j<=cuts[1][q+1]
Part(f(_,_)) == TLCEval([r \in 1..NN |-> [c \in 1..NN |-> IF f(BlkOf(r),BlkOf(c)) THEN A[r][c] ELSE ZZ]])
LL == Part(LAMBDA r,c : c<r)
DD == Part(LAMBDA r,c : c=r)
UU == Part(LAMBDA r,c : c>r)
Defining == (l=1) => LET y==Sweep(m,A,cuts,l,x,b,w) d==VSub(y,x) r==VSub(b,MVec(A,x)) IN
   CASE m="dbjac" -> MVec(DD,d)=VScale(w,r)
     [] m="bsorf" -> VAdd(MVec(DD,d),VScale(w,MVec(LL,d)))=VScale(w,r)
     [] m="bsorb" -> VAdd(MVec(DD,d),VScale(w,MVec(UU,d)))=VScale(w,r)
     [] m="dbgs" -> VAdd(MVec(DD,d),MVec(LL,d))=VScale(w,r)
Triangular == (l=1) => LET v==Sweep("bltsolve",A,cuts,l,x,b,OO) u==Sweep("butsolve",A,cuts,l,x,b,OO) IN
   /\ VAdd(MVec(DD,v),MVec(LL,v))=b /\ VAdd(MVec(DD,u),MVec(UU,u))=b
   /\ LET t==Sweep("ubltsolve",A,cuts,l,x,b,OO) IN VAdd(t,MVec(LL,t))=b
   /\ LET t==Sweep("ubutsolve",A,cuts,l,x,b,OO) IN VAdd(t,MVec(UU,t))=b
   /\ MVec(DD,Sweep("bdsolve",A,cuts,l,x,b,w))=VScale(w,b)
\* Gauss-Seidel and SOR agree without relaxation
Agree == (w=OO /\ l=1) => Sweep("dbgs",A,cuts,l,x,b,w)=Sweep("bsorf",A,cuts,l,x,b,w)
----
(* (2) *)
Recs == ndJsonDeserialize(IOEnv.REC)
NR == atoi(IOEnv.NREC)
KC == atoi(IOEnv.CHUNKS)
Result(d) == LET AA==FromJM(d.A) dd==FromJ(d.d) xx==FromJ(d.x) ww==<<d.w%P,0>> IN
   IF d.kind="prec" THEN (IF d.m="richardson" THEN VScale(ww,dd) ELSE Times(PrecSeq(d.m),AA,d.cuts,d.l,xx,dd,ww,d.it))
   ELSE Sweep(d.m,AA,d.cuts,d.l,xx,dd,ww)
Regular(d) == LET c==d.cuts[1] AA==FromJM(d.A) IN \A q \in 1..Len(c)-1 : ~Singular(AA,c[q]+1,c[q+1])
RecOK(d) == IF d.kind="diag" THEN d.thrown=d.missing
   ELSE Regular(d) => /\ d.out="ok" /\ FromJ(d.y)=Result(d)
                      /\ d.pure                       \* matrix, defect and system vectors untouched by pre/apply/post
JInit == /\ chunk \in 1..KC /\ i=chunk /\ A=0 /\ cuts=0 /\ l=0 /\ m=0 /\ x=0 /\ xs=0 /\ b=0 /\ w=0 /\ k=0
JNext == i+KC<=NR /\ i'=i+KC /\ UNCHANGED <<A,cuts,l,m,x,xs,b,w,k,chunk>>
RecordOK == i<=NR => RecOK(Recs[i])
=============================================================================
