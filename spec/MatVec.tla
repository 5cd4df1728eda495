------------------------------- MODULE MatVec -------------------------------
(* Matrix-vector products and norms on an explicit table of scalar entries (Gaussian integers).
   An entry carries its full row/column index path (rp,cp), its flat position (r,c) and its value (re,im).

   (1) Machine: the product is a state machine which consumes the stored entries one at a time in ANY order and
       accumulates into y (for the "set" variants y is cleared first).  Properties: only the listed accumulations
       happen, the order is irrelevant, and the terminal y is the algebraic definition Def.  Its initial states are
       also the exhaustive list of small structured inputs which are replayed into the real classes.
   (2) Judge: records of the real classes must satisfy the same definitions. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt, Functions

Add(a,b) == <<a[1]+b[1],a[2]+b[2]>>
Neg(a) == <<-a[1],-a[2]>>
Mul(a,b) == <<a[1]*b[1]-a[2]*b[2], a[1]*b[2]+a[2]*b[1]>>
Conj(a) == <<a[1],-a[2]>>
Zero == <<0,0>>
Transposed == {"mtv","umtv","umhv","mmtv","mmhv","usmtv","usmhv"}
Hermitian == {"umhv","mmhv","usmhv"}
Setting == {"mv","mtv"}
Subtracting == {"mmv","mmtv","mmhv"}
Scaling == {"usmv","usmtv","usmhv"}
OpNames == <<"mv","mtv","umv","umtv","umhv","mmv","mmtv","mmhv","usmv","usmtv","usmhv">>

(* contribution of one stored entry *)
Target(op,e) == IF op \in Transposed THEN e.c ELSE e.r
Source(op,e) == IF op \in Transposed THEN e.r ELSE e.c
Coef(op,e) == LET v == <<e.re,e.im>> IN IF op \in Hermitian THEN Conj(v) ELSE v
Signed(op,al,z) == CASE op \in Subtracting -> Neg(z) [] op \in Scaling -> Mul(al,z) [] OTHER -> z
Contribution(op,al,x,e) == Signed(op,al,Mul(Coef(op,e),x[Source(op,e)+1]))
Start(op,v) == IF op \in Setting THEN [k \in DOMAIN v |-> Zero] ELSE v
(* the definition: y_k + sum over all entries of row k of op(A) *)
Def(op,al,A,x,v) == LET S == Start(op,v) IN
   [k \in DOMAIN v |-> FoldLeft(LAMBDA acc,e : IF Target(op,e)+1=k THEN Add(acc,Contribution(op,al,x,e)) ELSE acc, S[k], A)]

(* ---- norms, by recursion over the block levels ---------------------------- *)
Mod2(e) == e.re*e.re+e.im*e.im
AbsInt(n) == IF n<0 THEN -n ELSE n
Modulus(e) == CHOOSE m \in 0..60 : m*m=Mod2(e)
MaxOf(S) == IF S={} THEN 0 ELSE CHOOSE m \in S : \A k \in S : k<=m
SumOver(P) == FoldSet(LAMBDA p,acc : acc+p[2], 0, P)
RECURSIVE BN(_,_,_)
BN(E,d,real) == IF E={} THEN 0
   ELSE LET e1 == CHOOSE e \in E : TRUE IN
     IF Len(e1.rp)<d THEN (IF real THEN AbsInt(e1.re)+AbsInt(e1.im) ELSE Modulus(e1))
     ELSE MaxOf({ LET Ei == {e \in E : e.rp[d]=ii} IN
                   SumOver({ <<j,BN({e \in Ei : e.cp[d]=j},d+1,real)>> : j \in {e.cp[d] : e \in Ei} })
                 : ii \in {e.rp[d] : e \in E} })
Frob2(A) == FoldLeft(LAMBDA acc,e : acc+Mod2(e),0,A)

(* ---- (1) machine ----------------------------------------------------------- *)
CONSTANTS MaxR, MaxC
VARIABLES inp, todo, y, chunk, i
mvars == <<inp,todo,y,chunk,i>>
Ent(p) == [r|->p[1],c|->p[2],re|->p[1]+2,im|->p[2]-1]
Xs(n) == [k \in 1..n |-> <<k,2-k>>]
Ys(n) == [k \in 1..n |-> <<-k,5>>]
Al == <<2,-1>>
MInit == \E n \in 0..MaxR, m \in 0..MaxC : \E P \in SUBSET ((0..n-1) \X (0..m-1)) : \E o \in 1..11 :
   /\ chunk=0 /\ i=0 /\ inp=[n|->n,m|->m,P|->P,op|->OpNames[o],o|->o-1]
   /\ todo=P
   /\ y=Start(OpNames[o],Ys(IF OpNames[o] \in Transposed THEN m ELSE n))
XOf == Xs(IF inp.op \in Transposed THEN inp.n ELSE inp.m)
MStep == \E p \in todo : /\ todo'=todo\{p} /\ UNCHANGED <<inp,chunk,i>>
   /\ y'=[y EXCEPT ![Target(inp.op,Ent(p))+1]=Add(@,Contribution(inp.op,Al,XOf,Ent(p)))]
MNext == MStep
MTerminal == todo={} => y=Def(inp.op,Al,SetToSeq({Ent(p) : p \in inp.P}),XOf,Ys(Len(y)))
MLocal == [][Cardinality({k \in DOMAIN y : y[k]#y'[k]})<=1]_mvars
EmitCases == IF todo=inp.P THEN PrintT(<<"CASE",ToJson([n|->inp.n,m|->inp.m,o|->inp.o,P|->SetToSeq(inp.P)])>>) ELSE TRUE

(* ---- (2) judge -------------------------------------------------------------- *)
Recs == ndJsonDeserialize(IOEnv.REC)
N == atoi(IOEnv.NREC)
K == atoi(IOEnv.CHUNKS)
ToSeqT(q) == [k \in DOMAIN q |-> <<q[k][1],q[k][2]>>]
ProdOK(r) == /\ r.out="ok" /\ r.same
             /\ ToSeqT(r.y2)=Def(r.op,<<r.al[1],r.al[2]>>,r.A,ToSeqT(r.x),ToSeqT(r.y))
             /\ r.x2=r.x
             /\ r.tr=(r.op \in Transposed)
             /\ Len(r.y)=(IF r.tr THEN r.C ELSE r.R) /\ Len(r.x)=(IF r.tr THEN r.R ELSE r.C)
NormOK(r) == /\ r.f2=Frob2(r.A) /\ r.f=r.f2
             /\ r.inf=BN({r.A[k] : k \in DOMAIN r.A},1,FALSE)
             /\ r.infr=BN({r.A[k] : k \in DOMAIN r.A},1,TRUE)
RecOK(r) == CASE r.kind="prod" -> ProdOK(r) [] r.kind="norm" -> NormOK(r)
              [] r.kind="size" -> r.out="err" /\ r.y2=r.y [] OTHER -> FALSE
JInit == /\ chunk \in 1..K /\ i=chunk /\ inp=0 /\ todo=0 /\ y=0
JNext == /\ i+K<=N /\ i'=i+K /\ UNCHANGED <<chunk,inp,todo,y>>
RecordOK == i<=N => RecOK(Recs[i])
=============================================================================
