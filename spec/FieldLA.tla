------------------------------ MODULE FieldLA ------------------------------
(* Linear algebra over GF(P^2) = GF(P)[i], i^2=-1 (P = 3 mod 4), numbers are  *)
(* pairs <<re,im>>; conj(<<a,b>>)=<<a,-b>> plays complex conjugation.         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANT P
ZZ == <<0,0>>
OO == <<1,0>>
FAdd(a,b) == <<(a[1]+b[1])%P,(a[2]+b[2])%P>>
FSub(a,b) == <<(a[1]-b[1])%P,(a[2]-b[2])%P>>
FNeg(a) == <<(-a[1])%P,(-a[2])%P>>
FMul(a,b) == <<(((a[1]*b[1])%P)-((a[2]*b[2])%P))%P,(((a[1]*b[2])%P)+((a[2]*b[1])%P))%P>>
FConj(a) == <<a[1],(-a[2])%P>>
RECURSIVE ExtGcd(_,_,_,_)   \* r0,r1 remainders, t0,t1 cofactors: result t with t*a = gcd mod P
ExtGcd(x0,x1,t0,t1) == IF x1=0 THEN t0 ELSE ExtGcd(x1,x0%x1,t1,t0-(x0\div x1)*t1)
PInv(a) == ExtGcd(P,a%P,0,1)%P
FInv(a) == LET n==(((a[1]*a[1])%P)+((a[2]*a[2])%P))%P w==PInv(n) IN <<(a[1]*w)%P,((-a[2])*w)%P>>
FDiv(a,b) == FMul(a,FInv(b))
FSum(f,S) == FoldLeft(LAMBDA acc,k : FAdd(acc,f[k]),ZZ,S)           \* f indexed by the elements of the sequence S
Idx(n) == [k \in 1..n |-> k]
\* vectors: sequences; matrices: sequences of rows
VAdd(x,y) == TLCEval([k \in DOMAIN x |-> FAdd(x[k],y[k])])
VSub(x,y) == TLCEval([k \in DOMAIN x |-> FSub(x[k],y[k])])
VScale(a,x) == TLCEval([k \in DOMAIN x |-> FMul(a,x[k])])
VAxpy(x,a,y) == TLCEval([k \in DOMAIN x |-> FAdd(x[k],FMul(a,y[k]))])   \* x + a y
VZero(n) == TLCEval([k \in 1..n |-> ZZ])
Dot(x,y) == FoldLeft(LAMBDA acc,k : FAdd(acc,FMul(FConj(x[k]),y[k])),ZZ,Idx(Len(x)))   \* x^H y
Row(r,x) == FoldLeft(LAMBDA acc,k : FAdd(acc,FMul(r[k],x[k])),ZZ,Idx(Len(x)))
MVec(A,x) == TLCEval([k \in DOMAIN A |-> Row(A[k],x)])
MMul(A,B) == TLCEval([k \in DOMAIN A |-> [l \in DOMAIN B[1] |-> FoldLeft(LAMBDA acc,m : FAdd(acc,FMul(A[k][m],B[m][l])),ZZ,Idx(Len(B)))]])
IdM(n) == TLCEval([k \in 1..n |-> [l \in 1..n |-> IF k=l THEN OO ELSE ZZ]])
IsHerm(A) == \A k \in DOMAIN A, l \in DOMAIN A : A[k][l]=FConj(A[l][k])
FromJ(q) == TLCEval([k \in DOMAIN q |-> <<q[k][1],q[k][2]>>])
FromJM(q) == TLCEval([k \in DOMAIN q |-> FromJ(q[k])])
Rng(lo,hi) == [k \in 1..hi-lo+1 |-> lo+k-1]
\* solution of a square system given as rows [A|b], << >> if singular
RECURSIVE Elim(_,_)
Elim(M,m) ==   \* M: sequence of rows, m unknowns left (columns 1..m, then the right hand side); reduced by the first column
  IF m=0 THEN <<>> ELSE
  LET piv=={k \in DOMAIN M : M[k][1] # ZZ} IN
  IF piv={} THEN << >> ELSE
  LET p==CHOOSE k \in piv : TRUE
      pr==M[p]
      inv==FInv(pr[1])
      rest==TLCEval([k \in 1..Len(M)-1 |-> LET r==IF k<p THEN M[k] ELSE M[k+1] f==FMul(r[1],inv) IN
                [j \in 1..Len(pr)-1 |-> FSub(r[j+1],FMul(f,pr[j+1]))]])
      sub==Elim(rest,m-1) IN
  IF m>1 /\ sub = << >> THEN sub
  ELSE LET t==FoldLeft(LAMBDA acc,j : FSub(acc,FMul(pr[j+1],sub[j])),pr[m+1],Rng(1,m-1)) IN <<FMul(t,inv)>> \o sub
\* inverse, << >> if singular (block elimination of [A | I])
RECURSIVE ElimN(_,_)
ElimN(M,n) == \* M: rows with n unknown columns followed by right hand sides; result: solutions row by row
  IF n=0 THEN <<>> ELSE
  LET piv=={k \in DOMAIN M : M[k][1] # ZZ} IN
  IF piv={} THEN << >> ELSE
  LET p==CHOOSE k \in piv : TRUE
      pr==M[p]
      inv==FInv(pr[1])
      rest==TLCEval([k \in 1..Len(M)-1 |-> LET r==IF k<p THEN M[k] ELSE M[k+1] f==FMul(r[1],inv) IN
                [j \in 1..Len(pr)-1 |-> FSub(r[j+1],FMul(f,pr[j+1]))]])
      sub==ElimN(rest,n-1) IN
  IF n>1 /\ sub = << >> THEN sub
  ELSE << TLCEval([c \in 1..Len(pr)-n |-> FMul(inv,FoldLeft(LAMBDA acc,j : FSub(acc,FMul(pr[j+1],sub[j][c])),pr[n+c],Rng(1,n-1)))]) >> \o sub
MInv(A) == LET n==Len(A) IN ElimN([k \in 1..n |-> A[k] \o [l \in 1..n |-> IF k=l THEN OO ELSE ZZ]],n)
MAdd(A,B) == TLCEval([k \in DOMAIN A |-> VAdd(A[k],B[k])])
MSub(A,B) == TLCEval([k \in DOMAIN A |-> VSub(A[k],B[k])])
MTr(A) == TLCEval([k \in DOMAIN A[1] |-> [l \in DOMAIN A |-> A[l][k]]])
MConj(A) == TLCEval([k \in DOMAIN A |-> [l \in DOMAIN A[1] |-> FConj(A[k][l])]])
MZero(n,m) == TLCEval([k \in 1..n |-> [l \in 1..m |-> ZZ]])
=============================================================================
