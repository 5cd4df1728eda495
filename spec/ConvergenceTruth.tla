--------------------------- MODULE ConvergenceTruth ---------------------------
(* What a solver says about its result is true.                                *)
(*  (1) machine of restarted minimal residual methods: which residual the      *)
(*      current basis and the current defect estimate belong to.  The estimate *)
(*      is the truth as long as every cycle starts from the residual of the    *)
(*      current iterate; explored for all restart lengths, limits, and every   *)
(*      iteration at which convergence may occur.                              *)
(*  (2) judge: runs of the real solvers.  Norms are recorded as 1000*log2      *)
(*      (integers); the true residual of the returned vector is recomputed by  *)
(*      the harness in the norm the method promises to reduce.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxIt, MaxRestart
VARIABLES m, maxit, cv,        \* restart length, iteration limit, iteration at which the defect gets small (0: never)
          ph, j, k,             \* phase; iterations done; iterations done in the current cycle
          ver, basis, est,      \* version of the iterate; version the basis/estimate belongs to
          chunk, i
mvars == <<m,maxit,cv,ph,j,k,ver,basis,est,chunk,i>>
MInit == /\ m \in 1..MaxRestart /\ maxit \in 0..MaxIt /\ cv \in 0..MaxIt /\ ph="cycle" /\ j=0 /\ k=0
         /\ ver=0 /\ basis=0 /\ est=0 /\ chunk=0 /\ i=0
Converged == cv>0 /\ j>=cv
Iterate == /\ ph="cycle" /\ k<m /\ j<maxit /\ ~Converged /\ j'=j+1 /\ k'=k+1 /\ est'=basis /\ UNCHANGED <<m,maxit,cv,ph,ver,basis,chunk,i>>
Update == /\ ph="cycle" /\ (k=m \/ j=maxit \/ Converged) /\ k>0 /\ ver'=ver+1 /\ basis'=(IF Converged \/ j=maxit THEN basis ELSE ver+1)
          /\ est'=basis' /\ k'=0 /\ ph'=(IF Converged \/ j=maxit THEN "done" ELSE "cycle") /\ UNCHANGED <<m,maxit,cv,j,chunk,i>>
MNext == Iterate \/ Update
FreshBasis == ph="cycle" => basis=ver          \* every iteration works on the residual of the current iterate
Limits == j<=maxit /\ k<=m
----
Recs == ndJsonDeserialize(IOEnv.REC)
NR == atoi(IOEnv.NREC)
KC == atoi(IOEnv.CHUNKS)
Slack == 25
Floor == -28000      \* below this (relative to the start) rounding dominates
AbsI(n) == IF n<0 THEN -n ELSE n
NONE == -999999
Vis(a,r0) == a # NONE /\ a-r0>Floor
\* one solve: requested reduction `req', reported `rep', truth `tru' (all relative, 1000*log2)
ClaimOK(d) == \/ d.out="abort" /\ ~d.conv
              \/ /\ d.out="ok"
                 /\ (d.conv /\ d.req>Floor) => d.tru <= d.req+Slack
                 /\ (~d.conv /\ d.req>Floor) => d.tru >= d.req-Slack /\ d.its=d.maxit
                 /\ d.tru>Floor => AbsI(d.rep-d.tru)<=Slack
\* curves of one system: c[name] = true residual norms after 1..K iterations
CurveOK(d) == LET C(n)==d.c[n] D==DOMAIN d.c
                  Leq(p,q) == \A s \in 1..d.K : (Vis(C(p)[s],d.r0) /\ C(q)[s] # NONE) => C(p)[s]<=C(q)[s]+Slack
                  Eq(p,q) == \A s \in 1..d.K : (Vis(C(p)[s],d.r0) /\ Vis(C(q)[s],d.r0)) => AbsI(C(p)[s]-C(q)[s])<=Slack
                  Mono(p) == \A s \in 1..d.K-1 : (C(p)[s] # NONE /\ C(p)[s+1] # NONE /\ Vis(C(p)[s+1],d.r0)) => C(p)[s+1]<=C(p)[s]+Slack IN
   /\ \A p \in {x \in D : x \in {"gmres","fgmres","minres","gmresR","fgmresR"}} : Mono(p) /\ (C(p)[1] # NONE => C(p)[1]<=d.r0+Slack)
   /\ \A q \in D : Leq(d.best,q)                                 \* the minimal residual method is optimal
   /\ {"gmres","fgmres"} \subseteq D /\ d.plain => Eq("gmres","fgmres")
   /\ {"gmres","minres"} \subseteq D /\ d.plain => Eq("gmres","minres")
   /\ {"gmresR","gmresS"} \subseteq D => Eq("gmresR","gmresS")    \* a restarted run = separate runs of one cycle each
   /\ {"fgmresR","fgmresS"} \subseteq D => Eq("fgmresR","fgmresS")
   /\ (d.K>=d.n /\ C(d.best)[d.n] # NONE) => ~Vis(C(d.best)[d.n],d.r0)   \* solved after n iterations
RecOK(d) == CASE d.kind="claim" -> ClaimOK(d) [] d.kind="curve" -> CurveOK(d) [] OTHER -> FALSE
JInit == /\ chunk \in 1..KC /\ i=chunk /\ m=0 /\ maxit=0 /\ cv=0 /\ ph=0 /\ j=0 /\ k=0 /\ ver=0 /\ basis=0 /\ est=0
JNext == /\ i+KC<=NR /\ i'=i+KC /\ UNCHANGED <<m,maxit,cv,ph,j,k,ver,basis,est,chunk>>
RecordOK == i<=NR => RecOK(Recs[i])
=============================================================================
