-------------------------------- MODULE Comm --------------------------------
(* Owner/overlap/copy communication.  A distribution gives every process p a  *)
(* set of global indices with an attribute: 1 owner, 2 overlap, 3 copy (0 =   *)
(* not present); exactly one process owns each present index.  An operation   *)
(* is a set of source attributes, a set of destination attributes and a mode. *)
(*  (1) machine: all processes gather what they have to send, the messages    *)
(*      are delivered in any order, destinations copy or add what arrives;    *)
(*      source and destination may be the same vectors.  The result of every  *)
(*      order of delivery is the one function Result defines, unless several  *)
(*      processes send copies of one index (then it is one of theirs).        *)
(*      Behaviours are histories of operations, each starting from the        *)
(*      vectors the previous ones left behind.                                *)
(*  (2) judge of histories recorded from MPI processes.                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, Json, IOUtils, TLC
CONSTANTS NP, NG, OpsUsed, MaxOps
Proc == 0..NP-1
Glob == 1..NG
OpDef(o) == CASE o="copyOwnerToAll" -> [src|->{1},dst|->{1,2,3},add|->FALSE]
              [] o="copyCopyToAll" -> [src|->{3},dst|->{1,2,3},add|->FALSE]
              [] o="addOwnerOverlapToAll" -> [src|->{1,2},dst|->{1,2,3},add|->TRUE]
              [] o="addOwnerCopyToAll" -> [src|->{1,3},dst|->{1,2,3},add|->TRUE]
              [] o="addOwnerCopyToOwnerCopy" -> [src|->{1,3},dst|->{1,3},add|->TRUE]
\* at[p][g]: attribute, pub[p][g]: known to others
Sends(at,pub,o,p,q,g) == /\ p # q /\ at[p][g] # 0 /\ at[q][g] # 0 /\ pub[p][g] /\ pub[q][g]
                         /\ at[p][g] \in OpDef(o).src /\ at[q][g] \in OpDef(o).dst
Senders(at,pub,o,q,g,procs) == {p \in procs : Sends(at,pub,o,p,q,g)}
\* what may be found at q after the operation (a set of values)
Result(at,pub,o,src,dst,q,g,procs) ==
   LET S==Senders(at,pub,o,q,g,procs) IN
   IF S={} THEN {dst[q][g]} ELSE IF OpDef(o).add THEN {dst[q][g]+MapThenSumSet(LAMBDA p : src[p][g],S)} ELSE {src[p][g] : p \in S}
----
(* (1) *)
VARIABLES at, pub, vec, src, op, pend, n, chunk, i
mv == <<at,pub,vec,src,op,pend,n,chunk,i>>
\* vec: the vectors of the history; src: values gathered by the running operation; before: vec when it started is kept in src
Owned(a) == \A g \in Glob : Cardinality({p \in Proc : a[p][g]=1})=1
MInit == /\ at \in {a \in [Proc -> [Glob -> 0..3]] : Owned(a)}
         /\ pub \in {[p \in Proc |-> [g \in Glob |-> TRUE]], [p \in Proc |-> [g \in Glob |-> p # 0 \/ g # 1]]}
         /\ vec=[p \in Proc |-> [g \in Glob |-> 10^g+p]] /\ src=vec /\ op="none" /\ pend={} /\ n=0 /\ chunk=0 /\ i=0
Start(o) == /\ pend={} /\ n<MaxOps /\ op'=o /\ src'=vec
            /\ pend'={<<p,q>> \in Proc \X Proc : \E g \in Glob : Sends(at,pub,o,p,q,g)}
            /\ n'=n+1 /\ UNCHANGED <<at,pub,vec,chunk,i>>
Deliver(p,q) == /\ <<p,q>> \in pend /\ pend'=pend \ {<<p,q>>}
   /\ vec'=[vec EXCEPT ![q]=[g \in Glob |-> IF Sends(at,pub,op,p,q,g) THEN (IF OpDef(op).add THEN @[g]+src[p][g] ELSE src[p][g]) ELSE @[g]]]
   /\ UNCHANGED <<at,pub,src,op,n,chunk,i>>
MNext == (\E o \in OpsUsed : Start(o)) \/ (\E m \in pend : Deliver(m[1],m[2]))
Quiet == op # "none" /\ pend={}
ResultIsDefined == Quiet => \A q \in Proc, g \in Glob : vec[q][g] \in Result(at,pub,op,src,src,q,g,Proc)
OwnerWins == (Quiet /\ op="copyOwnerToAll") => \A p \in Proc, q \in Proc, g \in Glob :
     (at[p][g]=1 /\ at[q][g] # 0 /\ pub[p][g] /\ pub[q][g]) => vec[q][g]=src[p][g]
Untouched == \A q \in Proc, g \in Glob : (op # "none" /\ (at[q][g]=0 \/ (op="copyOwnerToAll" /\ at[q][g]=1) \/ (op="addOwnerCopyToOwnerCopy" /\ at[q][g]=2))) => vec[q][g]=src[q][g]
\* additive operation: the values of all owner/copy entries of one index agree afterwards if they are all exchanged
SumConsistent == (Quiet /\ op="addOwnerCopyToOwnerCopy") => \A p \in Proc, q \in Proc, g \in Glob :
     (at[p][g] \in {1,3} /\ at[q][g] \in {1,3} /\ \A r \in Proc : pub[r][g]) => vec[q][g]=vec[p][g]
----
(* (2) *)
Recs == ndJsonDeserialize(IOEnv.REC)
NR == atoi(IOEnv.NREC)
KC == atoi(IOEnv.CHUNKS)
\* record: np, ng, at[p][g], pub[p][g], steps: <<op, alias, src, dst, res>>; src/dst/res [p][g] of integers (0 where absent), priv: entries outside the index set unchanged
FunP(a) == TLCEval([p \in 0..Len(a)-1 |-> a[p+1]])
StepOK(d,s) == LET a==FunP(d.at) b==FunP(d.pub) x==FunP(s.src) y==FunP(s.dst) z==FunP(s.res) w==FunP(s.src2) procs==0..d.np-1 IN
   /\ \A q \in procs, g \in 1..d.ng : a[q][g] # 0 =>
       IF s.op="project" THEN z[q][g]=(IF a[q][g]=3 THEN 0 ELSE y[q][g]) ELSE z[q][g] \in Result(a,b,s.op,x,y,q,g,procs)
   /\ (~s.alias => \A q \in procs, g \in 1..d.ng : a[q][g] # 0 => w[q][g]=x[q][g])    \* the source is only read
RecOK(d) == CASE d.kind="hist" -> /\ d.priv /\ d.err="" /\ \A k \in DOMAIN d.steps : StepOK(d,d.steps[k])
   [] d.kind="missing" -> d.thrown
   \* the lookup table is the inverse of the local numbering (entries are g, or 0)
   [] d.kind="lookup" -> /\ \A p \in DOMAIN d.found : d.sizes[p][1]=1 /\ \A l \in DOMAIN d.found[p] : LET G=={g \in DOMAIN d.loc[p] : d.loc[p][g]=l} IN d.found[p][l]=(IF G={} THEN 0 ELSE CHOOSE g \in G : TRUE)
JInit == /\ chunk \in 1..KC /\ i=chunk /\ at=0 /\ pub=0 /\ vec=0 /\ src=0 /\ op=0 /\ pend=0 /\ n=0
JNext == i+KC<=NR /\ i'=i+KC /\ UNCHANGED <<at,pub,vec,src,op,pend,n,chunk>>
RecordOK == i<=NR => RecOK(Recs[i])
=============================================================================
