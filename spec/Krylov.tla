------------------------------- MODULE Krylov -------------------------------
(* The recurrences of the Krylov solvers over an exact field.  One step of    *)
(* the machine is one iteration; the preconditioner may change between        *)
(* applications (B is a sequence of matrices used cyclically).                *)
(*  (1) machine, explored exhaustively over a tiny field: invariants           *)
(*      "r is the true residual", "the direction is A-orthogonal to the stored *)
(*      ones", "the exact solution is reached within n iterations".            *)
(*  (2) judge: iterate and residual of the real solvers after k iterations.   *)
EXTENDS FieldLA, Json, IOUtils
CONSTANTS N0, Sols    \* (1): dimension, solvers
\* state of a solve: x, r, k (iterations), m (preconditioner applications), ok (no division by zero so far), memory of the method
Pre(B,st,d) == MVec(B[(st.m%Len(B))+1],d)
Fail(st) == [st EXCEPT !.ok=FALSE]
StLoop(A,B,st,par) == LET v==Pre(B,st,st.r) IN [st EXCEPT !.x=VAdd(st.x,v),!.r=VSub(st.r,MVec(A,v)),!.k=@+1,!.m=@+1]
StGrad(A,B,st,par) == LET p==Pre(B,st,st.r) q==MVec(A,p) al==Dot(p,q) IN
   IF al=ZZ THEN Fail(st) ELSE LET l==FDiv(Dot(p,st.r),al) IN
   [st EXCEPT !.x=VAxpy(st.x,l,p),!.r=VAxpy(st.r,FNeg(l),q),!.k=@+1,!.m=@+1]
\* conjugate gradients: st.d = direction (or <<>>), st.e = rho
StCG(A,B,st,par) == LET z==Pre(B,st,st.r) rho==Dot(z,st.r) IN
   IF st.d # <<>> /\ st.e=ZZ THEN Fail(st)
   ELSE LET p==IF st.d = <<>> THEN z ELSE VAxpy(z,FDiv(rho,st.e),st.d)
            q==MVec(A,p) al==Dot(p,q) IN
        IF al=ZZ THEN Fail(st) ELSE LET l==FDiv(rho,al) IN
        [st EXCEPT !.x=VAxpy(st.x,l,p),!.r=VAxpy(st.r,FNeg(l),q),!.d=p,!.e=rho,!.k=@+1,!.m=@+1]
\* direction methods with stored directions D (newest last): z A-orthogonalised against D, exact line search
StDir(A,B,st,keep(_,_)) == LET z==Pre(B,st,st.r) Az==MVec(A,z) D==st.d IN
   LET p==FoldLeft(LAMBDA acc,d : VAxpy(acc,FNeg(FDiv(Dot(d,Az),Dot(d,MVec(A,d)))),d),z,D)
       q==MVec(A,p) al==Dot(p,q) IN
   IF al=ZZ THEN Fail(st) ELSE LET l==FDiv(Dot(p,st.r),al) IN
   [st EXCEPT !.x=VAxpy(st.x,l,p),!.r=VAxpy(st.r,FNeg(l),q),!.d=keep(st,Append(D,p)),!.k=@+1,!.m=@+1]
\* cyclic methods (generalized PCG with `restart', restarted FCG with `mmax'+1 stored directions): at the end of a cycle of c stored
\* directions only the newest survives
KeepCycle(c,D) == IF Len(D)>=c THEN (IF c=1 THEN <<>> ELSE <<D[Len(D)]>>) ELSE D
KeepLast(m,D) == IF Len(D)>m THEN SubSeq(D,Len(D)-m+1,Len(D)) ELSE D
\* BiCGSTAB, one step is half an iteration; memory: e=rho, a=alpha, w=omega, p, v, rt
StBi(A,B,st,par) ==
   IF st.k%2=0 THEN
     LET rho==Dot(st.rt,st.r) IN
     IF st.k>0 /\ (st.e=ZZ \/ st.w=ZZ) THEN Fail(st)
     ELSE LET p==IF st.k=0 THEN st.r ELSE VAxpy(st.r,FMul(FDiv(rho,st.e),FDiv(st.a,st.w)),VAxpy(st.p,FNeg(st.w),st.v))
              y==Pre(B,st,p) v==MVec(A,y) h==Dot(st.rt,v) IN
          IF h=ZZ THEN Fail(st) ELSE LET al==FDiv(rho,h) IN
          [st EXCEPT !.x=VAxpy(st.x,al,y),!.r=VAxpy(st.r,FNeg(al),v),!.e=rho,!.a=al,!.p=p,!.v=v,!.k=@+1,!.m=@+1]
   ELSE LET y==Pre(B,st,st.r) t==MVec(A,y) h==Dot(t,t) IN
        IF h=ZZ THEN Fail(st) ELSE LET w==FDiv(Dot(t,st.r),h) IN
        [st EXCEPT !.x=VAxpy(st.x,w,y),!.r=VAxpy(st.r,FNeg(w),t),!.w=w,!.k=@+1,!.m=@+1]
St0(A,b,x) == LET r==VSub(b,MVec(A,x)) IN [x|->x,r|->r,k|->0,m|->0,ok|->TRUE,d|-> <<>>,e|->ZZ,a|->ZZ,w|->ZZ,p|->r,v|->r,rt|->r]
Step(sol,A,B,st,par) == IF ~st.ok THEN st ELSE
   CASE sol="loop" -> StLoop(A,B,st,par) [] sol="gradient" -> StGrad(A,B,st,par) [] sol="cg" -> StCG(A,B,st,par)
     [] sol="bicgstab" -> StBi(A,B,st,par)
     [] sol="gpcg" -> StDir(A,B,st,LAMBDA s,D : KeepCycle(par,D))
     [] sol="rfcg" -> StDir(A,B,st,LAMBDA s,D : KeepCycle(par+1,D))
     [] sol="cfcg" -> StDir(A,B,st,LAMBDA s,D : KeepLast(par,D))
RECURSIVE Iter(_,_,_,_,_,_)
Iter(sol,A,B,st,par,n) == IF n=0 \/ ~st.ok THEN st ELSE Iter(sol,A,B,Step(sol,A,B,st,par),par,n-1)
----
(* (1) machine *)
VARIABLES sol, A, B, b, par, st, chunk, i
mvars == <<sol,A,B,b,par,st,chunk,i>>
GF == {<<u,v>> : u \in 0..P-1, v \in 0..P-1}
GR == {<<u,0>> : u \in 0..P-1}
HermN == {[k \in 1..N0 |-> [l \in 1..N0 |-> IF k=l THEN d[k] ELSE IF k<l THEN o ELSE FConj(o)]] : d \in [1..N0 -> GR], o \in GF}
MInit == /\ chunk=0 /\ i=0 /\ sol \in Sols /\ A \in HermN /\ \E Q \in {IdM(N0),[k \in 1..N0 |-> [l \in 1..N0 |-> IF k=l THEN <<k,0>> ELSE ZZ]]} : B = <<Q>>
         /\ b \in [1..N0 -> {ZZ,OO,<<1,2>>,<<0,1>>}] /\ par=N0+1 /\ st=St0(A,b,VZero(N0))
MNext == st.ok /\ st.k<2*N0 /\ st.r # VZero(N0) /\ st'=Step(sol,A,B,st,par) /\ UNCHANGED <<sol,A,B,b,par,chunk,i>>
TrueResidual == st.r=VSub(b,MVec(A,st.x))
Conjugate == (st.ok /\ sol \in {"gpcg","rfcg","cfcg"}) => \A k \in DOMAIN st.d, l \in DOMAIN st.d : k#l => Dot(st.d[k],MVec(A,st.d[l]))=ZZ
Exact == (st.ok /\ sol \in {"cg","gpcg","rfcg","cfcg"} /\ st.k>=N0) => st.r=VZero(N0)
ExactBi == (st.ok /\ sol="bicgstab" /\ st.k>=2*N0-1) => (st.k=2*N0-1 => st.r=VZero(N0))
CGequiv == (st.ok /\ sol \in {"gpcg","rfcg","cfcg"}) => LET s2==Iter("cg",A,B,St0(A,b,VZero(N0)),0,st.k) IN s2.ok => s2.x=st.x
----
(* (2) judge *)
Recs == ndJsonDeserialize(IOEnv.REC)
NR == atoi(IOEnv.NREC)
KC == atoi(IOEnv.CHUNKS)
Steps(d) == IF d.sol="bicgstab" THEN 2*d.its ELSE d.its
Ref(d) == Iter(d.sol,FromJM(d.A),[k \in DOMAIN d.B |-> FromJM(d.B[k])],St0(FromJM(d.A),FromJ(d.b),FromJ(d.x0)),d.par,Steps(d))
Terminates(d) == d.sol \in {"cg","bicgstab"} \/ (d.sol \in {"gpcg","rfcg","cfcg"} /\ d.par>=Len(d.b))
RecOK(d) == LET s==Ref(d) IN
   s.ok => /\ d.out="ok" /\ FromJ(d.x)=s.x /\ FromJ(d.r)=s.r
           /\ s.r=VSub(FromJ(d.b),MVec(FromJM(d.A),s.x))
           /\ (d.herm /\ Len(d.B)=1 /\ Terminates(d) /\ d.its=Len(d.b)) => s.r=VZero(Len(d.b))
JInit == /\ chunk \in 1..KC /\ i=chunk /\ sol=0 /\ A=0 /\ B=0 /\ b=0 /\ par=0 /\ st=0
JNext == /\ i+KC<=NR /\ i'=i+KC /\ UNCHANGED <<sol,A,B,b,par,st,chunk>>
RecordOK == i<=NR => RecOK(Recs[i])
Defined == i<=NR => (Ref(Recs[i]).ok => PrintT(<<"DEF",ToJson(Recs[i].sol)>>))
=============================================================================
