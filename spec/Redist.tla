------------------------------- MODULE Redist -------------------------------
(* Redistribution of a distributed matrix and its vectors to a new assignment  *)
(* of the unknowns to processes (attributes as in Comm).                       *)
(*  (1) machine: every process announces its owned unknowns and their          *)
(*      neighbours to the new owners, the new owners receive the messages in   *)
(*      any order, build their index sets and then get rows and vector entries.*)
(*  (2) judge of redistributions recorded from MPI processes.                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, Json, IOUtils, TLC
CONSTANTS NP, NG
BC == {1,3}
OwnerIn(a,procs,g) == CHOOSE p \in procs : a[p][g]=1
\* the global entry: the one of the owner of the row; of a non-overlapping distribution, where the owner has the column only as a
\* ghost, the one of any process that has both row and column as border or own unknowns
Entry(nov,a,procs,L,g,h) == LET p==OwnerIn(a,procs,g) Q=={q \in procs : a[q][g]=3 /\ a[q][h] \in BC} IN
   IF ~nov \/ a[p][h] \in BC THEN (IF a[p][h]=0 THEN 0 ELSE L[p][g][h]) ELSE IF a[p][h]=0 \/ Q={} THEN 0 ELSE L[CHOOSE q \in Q : TRUE][g][h]
LegalNov(a,procs,L,n) == \A g \in 1..n, h \in 1..n : LET Q=={q \in procs : a[q][g]=3 /\ a[q][h] \in BC} IN
   a[OwnerIn(a,procs,g)][h] \in BC \/ \A q \in Q, r \in Q : L[q][g][h]=L[r][g][h]
----
(* (1) *)
VARIABLES at, pat, part, inbox, own, nbr, done, got, chunk, i
mv == <<at,pat,part,inbox,own,nbr,done,got,chunk,i>>
Proc == 0..NP-1
Glob == 1..NG
Cols(g) == {h \in Glob : g=h \/ {g,h} \in pat}
MInit == /\ pat \in SUBSET {{g,h} : g \in Glob, h \in Glob}
         /\ at \in {a \in [Proc -> [Glob -> {0,1,3}]] : \A g \in Glob : Cardinality({p \in Proc : a[p][g]=1})=1}
         /\ \A g \in Glob : \A h \in Cols(g) : at[OwnerIn(at,Proc,g)][h] # 0            \* owner rows are complete
         /\ part \in [Glob -> Proc]
         \* message p -> q: owned unknowns of p that q gets, and their neighbours
         /\ inbox={<<p,q>> \in Proc \X Proc : \E g \in Glob : at[p][g] # 0 /\ part[g]=q}
         /\ own=[q \in Proc |-> {}] /\ nbr=[q \in Proc |-> {}] /\ done=FALSE /\ got=[q \in Proc |-> {}] /\ chunk=0 /\ i=0
Receive(p,q) == /\ <<p,q>> \in inbox /\ inbox'=inbox \ {<<p,q>>}
   /\ LET S=={g \in Glob : at[p][g]=1 /\ part[g]=q} IN
      own'=[own EXCEPT ![q]=@ \cup S] /\ nbr'=[nbr EXCEPT ![q]=@ \cup UNION {{h \in Cols(g) : part[h] # q \/ at[p][h] # 1} : g \in S}]
   /\ UNCHANGED <<at,pat,part,done,got,chunk,i>>
Rows == /\ inbox={} /\ ~done /\ done'=TRUE /\ got'=[q \in Proc |-> {<<g,h>> \in own[q] \X (own[q] \cup nbr[q]) : h \in Cols(g)}]
        /\ UNCHANGED <<at,pat,part,inbox,own,nbr,chunk,i>>
MNext == (\E m \in inbox : Receive(m[1],m[2])) \/ Rows
NewAt(q,g) == IF g \in own[q] THEN 1 ELSE IF g \in nbr[q] THEN 3 ELSE 0
OwnedOnce == done => \A g \in Glob : {q \in Proc : NewAt(q,g)=1}={part[g]}
RowsComplete == done => \A g \in Glob : \A h \in Cols(g) : <<g,h>> \in got[part[g]]
NoMore == done => \A q \in Proc : \A h \in nbr[q] \ own[q] : \E g \in own[q] : h \in Cols(g)
\* the remote index information is built with the neighbours only: it is symmetric
Knows(q,r) == \E h \in nbr[q] \ own[q] : part[h]=r
Symmetric == done => \A q \in Proc, r \in Proc : (q # r /\ Knows(q,r)) => Knows(r,q)
----
(* (2) *)
Recs == ndJsonDeserialize(IOEnv.REC)
NR == atoi(IOEnv.NREC)
KC == atoi(IOEnv.CHUNKS)
FunP(a) == TLCEval([p \in 0..Len(a)-1 |-> a[p+1]])
\* record: np, ng, nov, at, steps: <<[L, nL]>>: local matrices before/after (dense), nat: new attributes, vectors v (old), w0 (new before), w (new after), u0 (old before backward), u (old after)
OK(d) == LET a==FunP(d.at) b==FunP(d.nat) procs==0..d.np-1 n==d.ng IN
   /\ d.bij /\ d.err=""
   /\ \A g \in 1..n : Cardinality({p \in procs : b[p][g]=1})=1
   /\ \A p \in procs : d.ex[p+1]=(\E g \in 1..n : b[p][g]=1) \/ n=0 \/ d.kind # "build"
   /\ \A p \in procs, g \in 1..n : b[p][g] \in {0,1,3}
   /\ d.kind="build" => \A g \in 1..n : b[d.part[g]][g]=1
   /\ d.kind \in {"graph","comm"} => Cardinality({p \in procs : \E g \in 1..n : b[p][g]=1})<=d.nparts
   /\ (d.kind \in {"graph","comm"} /\ d.nparts=1) => \A g \in 1..n : b[0][g]=1
   /\ d.kind="comm" => \A p \in procs : \A g \in 1..n, h \in 1..n : (a[p][g]=1 /\ a[p][h]=1) => OwnerIn(b,procs,g)=OwnerIn(b,procs,h)
   /\ \A k \in DOMAIN d.steps : LET L==FunP(d.steps[k].L) M==FunP(d.steps[k].nL) IN
      /\ d.nov => LegalNov(a,procs,L,n)
      /\ \A g \in 1..n : LET q==OwnerIn(b,procs,g) IN \A h \in 1..n :
            /\ M[q][g][h]=Entry(d.nov,a,procs,L,g,h)
            /\ Entry(d.nov,a,procs,L,g,h) # 0 => b[q][h] # 0
      /\ \A p \in procs, g \in 1..n, h \in 1..n : b[p][g]=3 => IF d.nov THEN (b[p][h]=1 => M[p][g][h]=0) ELSE M[p][g][h]=(IF g=h THEN 1 ELSE 0)
   /\ LET v==FunP(d.v) w0==FunP(d.w0) w==FunP(d.w) u0==FunP(d.u0) u==FunP(d.u) c==FunP(d.c) IN
      /\ \A p \in procs, g \in 1..n : b[p][g] # 0 => w[p][g]=(IF b[p][g]=1 THEN v[OwnerIn(a,procs,g)][g] ELSE w0[p][g])
      /\ \A p \in procs, g \in 1..n : a[p][g] # 0 => u[p][g]=(IF a[p][g]=1 THEN w[OwnerIn(b,procs,g)][g] ELSE u0[p][g])
      \* the new communication works: c = new vectors after copyOwnerToAll
      /\ \A p \in procs, g \in 1..n : b[p][g] # 0 => c[p][g]=w[OwnerIn(b,procs,g)][g]
JInit == /\ chunk \in 1..KC /\ i=chunk /\ at=0 /\ pat=0 /\ part=0 /\ inbox=0 /\ own=0 /\ nbr=0 /\ done=0 /\ got=0
JNext == i+KC<=NR /\ i'=i+KC /\ UNCHANGED <<at,pat,part,inbox,own,nbr,done,got,chunk>>
RecordOK == i<=NR => OK(Recs[i])
=============================================================================
