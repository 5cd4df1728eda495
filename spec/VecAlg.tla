------------------------------- MODULE VecAlg -------------------------------
(* Definitions of vector arithmetic, products and norms over the complex     *)
(* (Gaussian) integers; judges recorded results of every vector type.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANT Dummy
VARIABLES chunk, i
Add(a,b) == <<a[1]+b[1],a[2]+b[2]>>
Mul(a,b) == <<a[1]*b[1]-a[2]*b[2],a[1]*b[2]+a[2]*b[1]>>
Conj(a) == <<a[1],-a[2]>>
Neg(a) == <<-a[1],-a[2]>>
Zero == <<0,0>>
ZipW(x,y,Op(_,_)) == [k \in DOMAIN x |-> Op(x[k],y[k])]
SumC(s) == FoldLeft(Add,Zero,s)
SumInt(s) == FoldLeft(LAMBDA a,b : a+b,0,s)
MaxS(s) == FoldLeft(LAMBDA a,b : IF b>a THEN b ELSE a,0,s)
AbsI(n) == IF n<0 THEN -n ELSE n
Mod2(a) == a[1]*a[1]+a[2]*a[2]
Modulus(a) == CHOOSE m \in 0..99 : m*m=Mod2(a)
L1(a) == AbsI(a[1])+AbsI(a[2])
MapV(x,Op(_)) == [k \in DOMAIN x |-> Op(x[k])]
T(q) == [k \in DOMAIN q |-> <<q[k][1],q[k][2]>>]
Result(r) == LET x == T(r.x) y == T(r.y) al == <<r.al[1],r.al[2]>> IN
  CASE r.op="add"   -> ZipW(x,y,Add)
    [] r.op="sub"   -> ZipW(x,y,LAMBDA a,b : Add(a,Neg(b)))
    [] r.op="axpy"  -> ZipW(x,y,LAMBDA a,b : Add(a,Mul(al,b)))
    [] r.op="scale" -> MapV(x,LAMBDA a : Mul(al,a))
    [] r.op="muldiv"-> x
    [] r.op="set"   -> MapV(x,LAMBDA a : al)
    [] r.op="copy"  -> y
    [] OTHER -> x
Scalar(r) == LET x == T(r.x) y == T(r.y) IN
  CASE r.op="dot"  -> SumC(ZipW(x,y,LAMBDA a,b : Mul(Conj(a),b)))
    [] r.op="dotT" -> SumC(ZipW(x,y,Mul))
    [] OTHER -> Zero
Norms(r) == LET x == T(r.x) two2 == SumInt(MapV(x,Mod2)) IN
  <<SumInt(MapV(x,Modulus)),SumInt(MapV(x,L1)),two2,two2,MaxS(MapV(x,Modulus)),MaxS(MapV(x,L1)),Len(x)>>
RecOK(r) == /\ r.out="ok"
            /\ T(r.x2)=Result(r) /\ T(r.y2)=T(r.y)
            /\ r.s=Scalar(r)
            /\ (r.op="norms" => r.n=Norms(r))
            /\ (r.op="nan" => \A k \in DOMAIN r.n : r.n[k]=1)      \* a NaN entry makes every norm NaN
Recs == ndJsonDeserialize(IOEnv.REC)
N == atoi(IOEnv.NREC)
K == atoi(IOEnv.CHUNKS)
JInit == /\ chunk \in 1..K /\ i=chunk
JNext == /\ i+K<=N /\ i'=i+K /\ UNCHANGED chunk
RecordOK == i<=N => RecOK(Recs[i])
=============================================================================
