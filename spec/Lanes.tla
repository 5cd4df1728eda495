-------------------------------- MODULE Lanes --------------------------------
(* Several right-hand sides at once: a SIMD field type holds one value per     *)
(* lane, and a solve with it is one run of the same recurrence for every lane. *)
(* A lane whose defect has vanished waits for the others without changing;     *)
(* the run ends when every lane has converged.                                 *)
(*  (1) machine over a tiny field, explored exhaustively: the joint run        *)
(*      projects to the run of every single lane, waiting lanes stay solved.   *)
(*  (2) machine of the joint stopping rule over all norms of two lanes.        *)
(*  (3) judge of recorded runs of the real solvers and operations.             *)
EXTENDS Krylov
CONSTANT Es     \* exponents of the norms in (2)
NAN==9001  INF==9002  ZERO == -9003
EsA == {2,0,-1,-120,ZERO,NAN}
Solved(A1,q) == q.r = VZero(Len(q.r))
LStep(so,A1,B1,q,p) == IF Solved(A1,q) THEN q ELSE Step(so,A1,B1,q,p)
----
(* (1) b is the sequence of right-hand sides, st of the states; i counts steps *)
Vecs == [1..N0 -> {ZZ,OO,<<1,2>>}]
LInit == /\ chunk=0 /\ i=0 /\ sol \in Sols /\ A \in HermN /\ B = <<IdM(N0)>> /\ b \in Vecs \X Vecs /\ par=N0+1 /\ st = <<St0(A,b[1],VZero(N0)),St0(A,b[2],VZero(N0))>>
LNext == /\ st[1].ok /\ st[2].ok /\ i<2*N0 /\ \E l \in 1..2 : ~Solved(A,st[l])
         /\ st' = [l \in 1..2 |-> LStep(sol,A,B,st[l],par)] /\ i'=i+1 /\ UNCHANGED <<sol,A,B,b,par,chunk>>
Good == st[1].ok /\ st[2].ok
Alone == Good => \A l \in 1..2 : st[l]=Iter(sol,A,B,St0(A,b[l],VZero(N0)),par,st[l].k)
Waits == Good => \A l \in 1..2 : (Solved(A,st[l]) <=> MVec(A,st[l].x)=b[l]) /\ (st[l].k<i => Solved(A,st[l]))
Longest == Good => i = (IF st[1].k>st[2].k THEN st[1].k ELSE st[2].k)
----
(* (2) the stopping rule: norms of the lanes per evaluation; sol=the norms so far, par=limit of evaluations, st=outcome *)
Finite(n) == n # NAN /\ n # INF
LConv(n,n0,r) == Finite(n) /\ (n = ZERO \/ n <= -100 \/ (n0 # ZERO /\ n <= n0-r-1))
Outcome(s,r,lim) == LET e==s[Len(s)] IN
   IF \E l \in DOMAIN e : ~Finite(e[l]) THEN "abort" ELSE IF \A l \in DOMAIN e : LConv(e[l],s[1][l],r) THEN "conv" ELSE IF Len(s)=lim THEN "limit" ELSE "run"
\* the reduction reported is that of the worst lane; a lane without defect has nothing to reduce
Worst(s) == LET e==s[Len(s)] Q=={e[l]-s[1][l] : l \in {k \in DOMAIN e : e[k] # ZERO /\ s[1][k] # ZERO}} IN IF Q={} THEN ZERO ELSE CHOOSE x \in Q : \A y \in Q : y<=x
SInit == /\ sol = <<>> /\ st="run" /\ par \in 1..3 /\ b \in 0..1 /\ A=0 /\ B=0 /\ chunk=0 /\ i=0
SNext == /\ st="run" /\ \E e \in Es \X Es : sol'=Append(sol,e) /\ st'=Outcome(sol',b,par) /\ UNCHANGED <<A,B,b,par,chunk,i>>
Every == /\ st="conv" => \A l \in 1..2 : LConv(sol[Len(sol)][l],sol[1][l],b)
         /\ (st # "run" /\ Len(sol)>1) => \E l \in 1..2 : ~LConv(sol[Len(sol)-1][l],sol[1][l],b) /\ Finite(sol[Len(sol)-1][l])
         /\ st="limit" => Len(sol)=par
\* a joint run lasts as long as the longest of its lanes (when every lane keeps what it has reached)
First(l) == LET K=={k \in DOMAIN sol : LConv(sol[k][l],sol[1][l],b)} IN IF K={} THEN 0 ELSE CHOOSE k \in K : \A j \in K : k<=j
Keeps == \A l \in 1..2 : First(l)>0 => \A k \in First(l)..Len(sol) : LConv(sol[k][l],sol[1][l],b)
Lasts == (st="conv" /\ Keeps) => Len(sol)=(IF First(1)>First(2) THEN First(1) ELSE First(2))
----
(* (3) *)
V(v) == [k \in DOMAIN v |-> <<v[k],0>>]
M(m) == [k \in DOMAIN m |-> V(m[k])]
N(v) == \A k \in DOMAIN v : v[k]>=0
LRef(d,l) == LET A1==TLCEval(M(d.A[l])) B1==TLCEval([k \in DOMAIN d.B |-> M(d.B[k])]) IN
   FoldLeft(LAMBDA q,k : TLCEval(LStep(d.sol,A1,B1,q,d.par)),St0(A1,V(d.b[l]),V(d.x0[l])),[k \in 1..Steps(d) |-> k])
KryOK(d) == LET R==TLCEval([l \in DOMAIN d.b |-> LRef(d,l)]) IN
   IF d.out="ok" THEN \A l \in DOMAIN R : R[l].ok => N(d.x[l]) /\ N(d.r[l]) /\ V(d.x[l])=R[l].x /\ V(d.r[l])=R[l].r
   ELSE \A l \in DOMAIN R : ~R[l].ok \/ R[l].r=VZero(Len(R[l].r))
CtlOK(d) == LET lim==d.per*d.max+1 n==d.evals s==d.sc IN
   /\ n=Len(s) /\ n<=lim /\ \A k \in 1..n-1 : Outcome(SubSeq(s,1,k),d.r,lim)="run"
   /\ LET o==Outcome(s,d.r,lim) IN
        /\ o # "run" /\ d.out=(IF o="abort" THEN "abort" ELSE "ok") /\ d.pre=1
        /\ o # "abort" => /\ d.conv=(o="conv") /\ d.post=1 /\ d.its \in {(n-1)\div d.per,n\div d.per}
                          /\ d.rfin /\ d.rpow /\ d.rzero=(Worst(s)=ZERO) /\ (~d.rzero => d.rx=Worst(s))
MaxIts(d) == LET Q=={IF d.lanes[l].zero THEN 0 ELSE d.lanes[l].its : l \in DOMAIN d.lanes} IN CHOOSE x \in Q : \A y \in Q : y<=x
Slack(d) == IF d.sol \in {"gmres","minres"} /\ d.prec # "rich" THEN 400000 ELSE 1010
RealOK(d) == LET st1=={d.lanes[l].out : l \in DOMAIN d.lanes} IN
   /\ d.out # "ok" => (\E s \in st1 : s # "ok") \/ (d.sol="bicgstab" /\ \E l \in DOMAIN d.lanes : ~d.lanes[l].zero /\ d.lanes[l].its<=d.its)   \* BiCGSTAB may break down beyond convergence
   /\ d.out="ok" => \A l \in DOMAIN d.defs : d.defs[l]>=0
   /\ (d.out="ok" /\ d.conv) => d.rfin /\ \A l \in DOMAIN d.defs : d.defs[l]<=Slack(d)
   /\ st1={"ok"} => /\ d.conv = \A l \in DOMAIN d.lanes : d.lanes[l].conv
                    /\ d.its>=MaxIts(d)-1 /\ d.its<=2*MaxIts(d)+10
   /\ d.allzero => d.out="ok" /\ d.conv /\ d.its=0
LJInit == /\ chunk \in 1..KC /\ i=chunk /\ sol=0 /\ A=0 /\ B=0 /\ b=0 /\ par=0 /\ st=0
LRecordOK == i<=NR => LET d==Recs[i] IN CASE d.kind="kry" -> KryOK(d) [] d.kind="ctl" -> CtlOK(d) [] d.kind="real" -> RealOK(d) [] d.kind="pw" -> d.got=d.want
=============================================================================
