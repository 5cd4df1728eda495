------------------------------- MODULE MatAlg -------------------------------
(* Algebra of matrices given as tables of scalar entries: sums, scalings, products A*B, A^T*B, A*B^T, transposes.
   (1) Machine: a product is computed by visiting, in any order, the structurally matching pairs of entries; the result
       grows from the empty pattern.  Terminal result (pattern and values) must be the algebraic definition.  The initial
       states are replayed into the real product routines.
   (2) Judge: recorded results of the real classes against the same definitions. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt, Functions
CAdd(a,b) == <<a[1]+b[1],a[2]+b[2]>>
CSub(a,b) == <<a[1]-b[1],a[2]-b[2]>>
CMul(a,b) == <<a[1]*b[1]-a[2]*b[2], a[1]*b[2]+a[2]*b[1]>>
Zero == <<0,0>>
(* a table as a function from positions to values *)
Fn(A) == FoldLeft(LAMBDA f,e : (<<e.r,e.c>> :> <<e.re,e.im>>) @@ f, <<>>, A)
At(f,p) == IF p \in DOMAIN f THEN f[p] ELSE Zero
NoDup(A) == Cardinality({<<A[k].r,A[k].c>> : k \in DOMAIN A})=Len(A)
Sorted(A) == \A k \in 1..Len(A)-1 : A[k].rp[1]<A[k+1].rp[1] \/ (A[k].rp[1]=A[k+1].rp[1] /\ A[k].cp[1]<=A[k+1].cp[1])
(* row and column of op(A), op(B) for the three products *)
RowA(op,p) == IF op="AtB" THEN p[2] ELSE p[1]
ColA(op,p) == IF op="AtB" THEN p[1] ELSE p[2]
RowB(op,p) == IF op="ABt" THEN p[2] ELSE p[1]
ColB(op,p) == IF op="ABt" THEN p[1] ELSE p[2]
Pairs(op,PA,PB) == {pq \in PA \X PB : ColA(op,pq[1])=RowB(op,pq[2])}
ResPos(op,pq) == <<RowA(op,pq[1]),ColB(op,pq[2])>>
ProdDef(op,f,g) == LET PR == Pairs(op,DOMAIN f,DOMAIN g) IN
   [p \in {ResPos(op,pq) : pq \in PR} |-> FoldSet(LAMBDA pq,acc : CAdd(acc,CMul(f[pq[1]],g[pq[2]])), Zero, {pq \in PR : ResPos(op,pq)=p})]
SumDef(op,al,f,g) == [p \in DOMAIN f |->
   CASE op="add" -> CAdd(f[p],At(g,p)) [] op="sub" -> CSub(f[p],At(g,p)) [] op="axpy" -> CAdd(f[p],CMul(al,At(g,p)))
     [] op="mul" -> CMul(al,f[p]) [] op="div" -> CMul(al,f[p])           \* only divisions by +-1 are recorded
     [] op="fill" -> al [] op="negadd" -> CSub(At(g,p),f[p])]
(* Matrix<T>::transpose is the transpose of a matrix with entries in T: block positions are exchanged, blocks are kept *)
TransDef(A) == {<<<<A[k].cp[1]>> \o Tail(A[k].rp),<<A[k].rp[1]>> \o Tail(A[k].cp),A[k].re,A[k].im>> : k \in DOMAIN A}
AsSet(A) == {<<A[k].rp,A[k].cp,A[k].re,A[k].im>> : k \in DOMAIN A}

(* ---- (1) machine ----------------------------------------------------------- *)
CONSTANTS Dims      \* set of <<n,k,m>>
VARIABLES inp, todo, res, chunk, i
mvars == <<inp,todo,res,chunk,i>>
Val(p) == <<p[1]+2*p[2]+1,p[1]-p[2]>>
Fun(P) == [p \in P |-> Val(p)]
MInit == \E d \in Dims, op \in {"AB","AtB","ABt"} :
   \E PA \in SUBSET (IF op="AtB" THEN (0..d[2]-1) \X (0..d[1]-1) ELSE (0..d[1]-1) \X (0..d[2]-1)),
      PB \in SUBSET (IF op="ABt" THEN (0..d[3]-1) \X (0..d[2]-1) ELSE (0..d[2]-1) \X (0..d[3]-1)) :
   /\ inp=[d|->d,op|->op,PA|->PA,PB|->PB] /\ todo=Pairs(op,PA,PB) /\ res = <<>> /\ chunk=0 /\ i=0
MNext == \E pq \in todo : /\ todo'=todo\{pq} /\ UNCHANGED <<inp,chunk,i>>
   /\ LET p == ResPos(inp.op,pq) IN res'=(p :> CAdd(At(res,p),CMul(Val(pq[1]),Val(pq[2])))) @@ res
MTerminal == todo={} => res=ProdDef(inp.op,Fun(inp.PA),Fun(inp.PB))
EmitCases == IF todo=Pairs(inp.op,inp.PA,inp.PB) THEN PrintT(<<"CASE",ToJson([d|->inp.d,op|->inp.op,PA|->SetToSeq(inp.PA),PB|->SetToSeq(inp.PB)])>>) ELSE TRUE

(* ---- (2) judge -------------------------------------------------------------- *)
Recs == ndJsonDeserialize(IOEnv.REC)
N == atoi(IOEnv.NREC)
K == atoi(IOEnv.CHUNKS)
Al(r) == <<r.al[1],r.al[2]>>
DenseZero(R,C,f) == [p \in (0..R-1) \X (0..C-1) |-> At(f,p)]
RecOK(r) ==
  CASE r.kind="sum" -> r.out="ok" /\ r.same /\ NoDup(r.A2) /\ Fn(r.A2)=
          (IF r.op="fill" THEN LET blk == [p \in DOMAIN Fn(r.A) |-> Al(r)] IN blk ELSE SumDef(r.op,Al(r),Fn(r.A),Fn(r.B)))
    [] r.kind="prod" -> IF r.mism THEN r.out="err" /\ r.same
                        ELSE r.out="ok" /\ r.same /\ NoDup(r.C) /\ Sorted(r.C) /\ Fn(r.C)=ProdDef(r.op,Fn(r.A),Fn(r.B))
    [] r.kind="dprod" -> r.out="ok" /\ Fn(r.X)=DenseZero(r.R,r.C,ProdDef("AB",Fn(r.A),Fn(r.B)))
    [] r.kind="dtrans" -> r.out="ok" /\ AsSet(r.X)=TransDef(r.A)
    [] r.kind="dvec" -> r.out="ok" /\ LET f == Fn(r.A) IN [k \in DOMAIN r.y |-> <<r.y[k][1],r.y[k][2]>>]=
          [k \in 1..r.R |-> FoldSet(LAMBDA p,acc : IF p[1]+1=k THEN CAdd(acc,CMul(f[p],<<r.x[p[2]+1][1],r.x[p[2]+1][2]>>)) ELSE acc, Zero, DOMAIN f)]
    [] r.kind="copy" -> r.out="ok" /\ r.X=r.A /\ r.Y=r.Y0
    [] r.kind="size" -> r.out="err" /\ r.same
    [] OTHER -> FALSE
JInit == /\ chunk \in 1..K /\ i=chunk /\ inp=0 /\ todo=0 /\ res=0
JNext == /\ i+K<=N /\ i'=i+K /\ UNCHANGED <<chunk,inp,todo,res>>
RecordOK == i<=N => RecOK(Recs[i])
DimsQ == {<<n,k,m>> : n \in 0..2, k \in 0..2, m \in 0..2} \ {<<2,2,2>>,<<2,2,1>>}
DimsT == {<<n,k,m>> : n \in 0..2, k \in 0..2, m \in 0..2}
=============================================================================
