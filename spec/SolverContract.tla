--------------------------- MODULE SolverContract ---------------------------
(* The contract between an iterative solver, its user and its numerical       *)
(* environment.  The environment (operator, preconditioner, scalar product)   *)
(* is adversarial: it answers each defect evaluation with an arbitrary norm.  *)
(* Norms are powers of two, represented by their exponent; NaN, Inf and 0 are *)
(* special values.  A requested reduction r stands for 0.75 * 2^-r, so that   *)
(* "defect < defect0 * reduction" is  e <= e0 - r - 1  and never a tie; the   *)
(* absolute limit 1e-30 is  e <= -100.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Functions
CONSTANTS Per,      \* defect evaluations per iteration (1, or 2 for BiCGSTAB's half steps)
          MaxIts,   \* permitted iteration limits
          Reds,     \* requested reductions
          Norms0, Norms, \* norms the environment may answer (initially / later)
          MaxCalls, Monotone, \* Monotone: every later norm is smaller than the one before (minimal residual methods)
          Random
NAN==9001  INF==9002  ZERO== -9003
NormsA == {4,0,-1,-3,-9,-120,6,NAN,INF}
Norms0A == {2,-97,-120,ZERO,NAN,INF}
NormsB == {1,-1,-7,NAN}
Norms0B == {0,NAN}
NormsL == {1,0,-1,2,-2,-5,-9}
NormsK == {-1,-2,-4,-8}       \* Monotone: relative drops
NormsKN == {-1,-2,-4,-8,NAN}
Norms0K == {3,-94,-101}
NormsH == {0,-1,-5,-110,NAN}
VARIABLES maxit, r0,     \* the solver object
          ph, kind, red, pre, post, sc,   \* the running call: phase, how the reduction is given, preconditioner pre/post counts, norms so far
          calls          \* finished calls
vars == <<maxit,r0,ph,kind,red,pre,post,sc,calls>>
Finite(n) == n # NAN /\ n # INF
Tiny(n) == n = ZERO \/ n <= -100
Conv(n,n0,r) == Finite(n) /\ (Tiny(n) \/ (n0 # ZERO /\ n <= n0-r-1))
Limit == Per*maxit + 1                     \* defect evaluations permitted in one call
Result == [conv |-> FALSE, its |-> 0, red |-> 0, evals |-> 0, out |-> "ok", pre |-> 1, post |-> 1]
Init == /\ maxit \in MaxIts /\ r0 \in Reds /\ ph="idle" /\ kind="own" /\ red=0 /\ pre=0 /\ post=0 /\ sc = <<>> /\ calls = <<>>
Begin(k,r) == /\ ph="idle" /\ Len(calls)<MaxCalls
              /\ kind'=k /\ red'=IF k="own" THEN r0 ELSE r
              /\ pre'=1 /\ post'=0 /\ sc' = <<>> /\ ph'="run" /\ UNCHANGED <<maxit,r0,calls>>
\* the call ends after the norms s: out is "ok" or "abort"
End(s,out) == LET n0==s[1] n==s[Len(s)] e==Len(s)-1 IN
   calls' = Append(calls,[kind |-> kind, r |-> red, sc |-> s, out |-> out,
      conv |-> (out="ok" /\ Conv(n,n0,red)),
      half |-> IF out="ok" THEN e ELSE e-1,
      rows |-> [k \in 1..(IF out="ok" THEN Len(s) ELSE Len(s)-1) |-> <<k-1,s[k]>>],   \* what the solver says line by line where it is asked to (verbosity 2)
      red |-> IF out="abort" \/ n=ZERO \/ n0=ZERO THEN -9999 ELSE 10*(n-n0)])
Answer(a) == /\ ph="run"
             /\ LET n==IF Monotone /\ sc # <<>> /\ Finite(a) THEN sc[Len(sc)]+a ELSE a
                    s==Append(sc,n) IN
                /\ sc'=s
                /\ IF ~Finite(n) THEN End(s,"abort") /\ ph'="idle" /\ UNCHANGED post
                   ELSE IF Conv(n,s[1],red) \/ Len(s)=Limit THEN End(s,"ok") /\ ph'="idle" /\ post'=1
                   ELSE ph'="run" /\ UNCHANGED <<calls,post>>
             /\ UNCHANGED <<maxit,r0,kind,red,pre>>
Choose(S) == IF Random THEN {RandomElement(S)} ELSE S
\* (the tests of calls keep TLC from drawing once and for all)
Next == \/ \E k \in (IF Len(calls)>=0 THEN Choose({"own","arg"}) ELSE {}) : \E r \in (IF k="own" THEN {r0} ELSE IF Len(calls)>=0 THEN Choose(Reds) ELSE {}) : Begin(k,r)
        \/ \E a \in Choose(IF sc = <<>> THEN Norms0 ELSE Norms) : Answer(a)
Spec == Init /\ [][Next]_vars
----
\* the contract, stated on finished calls without reference to the machine
Contract == \A c \in {calls[i] : i \in DOMAIN calls} :
   LET s==c.sc n==Len(s) r==c.r IN
   /\ n <= Limit
   /\ \A i \in 1..n-1 : Finite(s[i]) /\ ~Conv(s[i],s[1],r)       \* nothing was computed after convergence or a non-finite defect
   /\ (c.out="abort") = ~Finite(s[n])
   /\ c.conv = (c.out="ok" /\ Conv(s[n],s[1],r))
   /\ (~c.conv /\ c.out="ok") => n=Limit                         \* not converged only because the limit was reached
   /\ c.kind="own" => r=r0                                       \* an earlier call's reduction has no effect
   /\ c.half <= Per*maxit
   /\ \A i \in DOMAIN c.rows : Finite(c.rows[i][2])
Once == pre<=1 /\ post<=pre /\ (ph="run" => pre=1 /\ post=0)
Emit == (ph="idle" /\ calls # <<>> /\ Len(calls)=MaxCalls) => PrintT(<<"BEH", ToJson([maxit |-> maxit, r0 |-> r0, calls |-> calls])>>)
=============================================================================
