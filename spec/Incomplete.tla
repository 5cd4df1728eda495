----------------------------- MODULE Incomplete -----------------------------
(* Incomplete factorisations of block matrices: ILU(0), ILU(n) (fill by       *)
(* generations), DILU and incomplete L D L^T, and the solves with them.       *)
(* A block matrix is an N x N matrix of s x s matrices; pat[i] is the set of  *)
(* columns stored in row i.                                                   *)
(*  (1) machine: rows are eliminated one after the other; invariants: on the  *)
(*      permitted pattern the product of the finished rows is the matrix,     *)
(*      patterns grow with n between the original and the full factorisation, *)
(*      with a full pattern the solve is exact.                               *)
(*  (2) judge of recorded factors and applications.                           *)
EXTENDS FieldLA, Json, IOUtils
CONSTANTS N0, Kinds
Below(S,i) == SetToSortSeq({j \in S : j<i},<)
Above(S,i) == SetToSortSeq({j \in S : j>i},<)
AboveDown(S,i) == Reverse(Above(S,i))
\* ---- fill: gens[i] maps the columns of row i to their generation
RowFill(i,gens,row0,n) ==
  LET RECURSIVE Go(_,_)
      Go(row,k) == IF k=i THEN row
        ELSE IF k \in DOMAIN row /\ row[k]<n
          THEN LET new=={j \in DOMAIN gens[k] : j>k /\ gens[k][j]<n /\ j \notin DOMAIN row}
               IN Go(TLCEval([j \in DOMAIN row \cup new |-> IF j \in DOMAIN row THEN row[j] ELSE gens[k][j]+1]),k+1)
          ELSE Go(row,k+1)
  IN Go(row0,1)
Gens(pat,n) == FoldLeft(LAMBDA acc,i : Append(acc,RowFill(i,acc,[j \in pat[i] |-> 0],n)),<<>>,Idx(Len(pat)))
Fill(pat,n) == IF n=0 THEN pat ELSE LET g==Gens(pat,n) IN TLCEval([i \in DOMAIN pat |-> DOMAIN g[i]])
\* ---- ILU: one row; state [M, D, ok]: M eliminated rows (L below, U above the diagonal), D inverse pivots
IluRow(st,pat,i) == IF ~st.ok THEN st ELSE
  LET row==FoldLeft(LAMBDA r,k : LET L==MMul(r[k],st.D[k]) IN
             TLCEval([j \in DOMAIN r |-> IF j=k THEN L ELSE IF j>k /\ j \in pat[k] /\ j \in pat[i] THEN MSub(r[j],MMul(L,st.M[k][j])) ELSE r[j]]),
             st.M[i],Below(pat[i],i))
      inv==MInv(row[i]) IN
  IF inv = << >> THEN [st EXCEPT !.ok=FALSE] ELSE [M|->[st.M EXCEPT ![i]=row],D|->Append(st.D,inv),ok|->TRUE]
\* ---- DILU: the diagonal only
DiluRow(st,pat,i) == IF ~st.ok THEN st ELSE
  LET d==FoldLeft(LAMBDA r,k : IF i \in pat[k] THEN MSub(r,MMul(MMul(st.M[i][k],st.D[k]),st.M[k][i])) ELSE r,st.M[i][i],Below(pat[i],i))
      inv==MInv(d) IN IF inv = << >> THEN [st EXCEPT !.ok=FALSE] ELSE [st EXCEPT !.D=Append(st.D,inv)]
\* ---- L D L^T: row i of L, unscaled entries first (they are L_ij D_j)
IldlRow(st,pat,i) == IF ~st.ok THEN st ELSE
  LET low==Below(pat[i],i)
      un==FoldLeft(LAMBDA r,j : TLCEval([r EXCEPT ![j]=FoldLeft(LAMBDA acc,k : IF k \in pat[j] THEN MSub(acc,MMul(r[k],MTr(st.M[j][k]))) ELSE acc,r[j],Below(pat[i],j))]),st.M[i],low)
      row==TLCEval([j \in DOMAIN un |-> IF j<i /\ j \in pat[i] THEN MMul(un[j],st.D[j]) ELSE un[j]])
      d==FoldLeft(LAMBDA acc,k : MSub(acc,MMul(un[k],MTr(row[k]))),un[i],low)
      inv==MInv(d) IN IF inv = << >> THEN [st EXCEPT !.ok=FALSE] ELSE [M|->[st.M EXCEPT ![i]=row],D|->Append(st.D,inv),ok|->TRUE]
Row1(kind,st,pat,i) == CASE kind="ilu" -> IluRow(st,pat,i) [] kind="dilu" -> DiluRow(st,pat,i) [] kind="ildl" -> IldlRow(st,pat,i)
Fact(kind,M,pat) == FoldLeft(LAMBDA st,i : Row1(kind,st,pat,i),[M|->M,D|-> <<>>,ok|->TRUE],Idx(Len(pat)))
\* ---- solves with the factors
SolveWith(kind,F,pat,d) == LET n==Len(pat)
   y==FoldLeft(LAMBDA acc,i : LET r==FoldLeft(LAMBDA a,j : VSub(a,MVec(F.M[i][j],acc[j])),d[i],Below(pat[i],i)) IN
               Append(acc,IF kind="dilu" THEN MVec(F.D[i],r) ELSE r),<<>>,Idx(n))
   dn==Reverse(Idx(n)) IN
   IF kind="ilu" THEN FoldLeft(LAMBDA v,i : [v EXCEPT ![i]=MVec(F.D[i],FoldLeft(LAMBDA a,j : VSub(a,MVec(F.M[i][j],v[j])),y[i],Above(pat[i],i)))],y,dn)
   ELSE IF kind="dilu" THEN FoldLeft(LAMBDA v,i : [v EXCEPT ![i]=VSub(y[i],MVec(F.D[i],FoldLeft(LAMBDA a,j : VAdd(a,MVec(F.M[i][j],v[j])),VZero(Len(y[i])),Above(pat[i],i))))],y,dn)
   ELSE LET z==TLCEval([i \in 1..n |-> MVec(F.D[i],y[i])]) IN
        FoldLeft(LAMBDA v,i : FoldLeft(LAMBDA u,j : [u EXCEPT ![j]=VSub(u[j],MVec(MTr(F.M[i][j]),v[i]))],v,Below(pat[i],i)),z,dn)
----
(* (1) scalar entries *)
VARIABLES kind, n, A, pat, st, i, chunk
mv == <<kind,n,A,pat,st,i,chunk>>
VV(a) == <<<<a>>>>
Val(r,c) == IF r=c THEN VV(<<(r*r+1)%P,0>>) ELSE VV(<<(r+2*c)%P,(IF r<c THEN 1 ELSE r)%P>>)
SymVal(r,c) == IF r=c THEN VV(<<(r*r+1)%P,0>>) ELSE VV(<<(r+c+r*c)%P,(r*c)%P>>)
Offs == {<<r,c>> \in (1..N0) \X (1..N0) : r#c}
Pats == {TLCEval([r \in 1..N0 |-> {r} \cup {c \in 1..N0 : <<r,c>> \in S}]) : S \in SUBSET Offs}
MatOf(p,sym) == TLCEval([r \in DOMAIN p |-> [c \in DOMAIN p |-> IF c \in p[r] THEN (IF sym THEN SymVal(r,c) ELSE Val(r,c)) ELSE VV(ZZ)]])
Sym(p) == \A r \in DOMAIN p, c \in DOMAIN p : c \in p[r] <=> r \in p[c]
MInit == \E p \in Pats : /\ kind \in Kinds /\ n \in (IF kind="ilu" THEN 0..N0 ELSE {0}) /\ (kind="ildl" => Sym(p))
     /\ A=MatOf(p,kind="ildl") /\ pat=Fill(p,n) /\ st=[M|->A,D|-> <<>>,ok|->TRUE] /\ i=0 /\ chunk=0
MNext == i<N0 /\ st.ok /\ i'=i+1 /\ st'=Row1(kind,st,pat,i') /\ UNCHANGED <<kind,n,A,pat,chunk>>
Sc(x) == x[1][1]
Piv(k) == FInv(Sc(st.D[k]))
LE(r,k) == IF r=k THEN OO ELSE IF k \in pat[r] /\ k<r THEN Sc(st.M[r][k]) ELSE ZZ
UE(k,c) == IF k=c THEN Piv(k) ELSE IF c \in pat[k] /\ c>k THEN Sc(st.M[k][c]) ELSE ZZ
Prod(r,c) == CASE kind="ilu" -> FoldLeft(LAMBDA a,k : FAdd(a,FMul(LE(r,k),UE(k,c))),ZZ,Idx(IF r<c THEN r ELSE c))
   [] kind="ildl" -> FoldLeft(LAMBDA a,k : FAdd(a,FMul(FMul(LE(r,k),Piv(k)),LE(c,k))),ZZ,Idx(IF r<c THEN r ELSE c))
   [] kind="dilu" -> FoldLeft(LAMBDA a,k : FAdd(a,FMul(FMul(IF r=k THEN Piv(k) ELSE LE(r,k),Sc(st.D[k])),UE(k,c))),ZZ,Idx(IF r<c THEN r ELSE c))
OnPattern == st.ok => \A r \in 1..i, c \in 1..i : (IF kind="dilu" THEN r=c ELSE c \in pat[r]) => Prod(r,c)=Sc(A[r][c])
OrigPat == TLCEval([r \in 1..N0 |-> {c \in 1..N0 : Sc(A[r][c]) # ZZ} \cup {r}])
FullFill(p) == LET RECURSIVE Cl(_)
       Cl(q) == LET q2==[r \in DOMAIN q |-> q[r] \cup UNION {{c \in q[k] : c>k} : k \in {k2 \in q[r] : k2<r}}] IN IF q2=q THEN q ELSE Cl(q2) IN Cl(p)
Patterns == (kind="ilu" /\ i=0) => LET p==OrigPat IN
   /\ Fill(p,0)=p /\ \A r \in 1..N0 : p[r] \subseteq pat[r] /\ pat[r] \subseteq FullFill(p)[r] /\ (n>0 => Fill(p,n-1)[r] \subseteq pat[r])
   /\ (n>=N0 => pat=FullFill(p))
   /\ (n=1 => \A r \in 1..N0 : pat[r]=p[r] \cup UNION {{c \in p[k] : c>k} : k \in {k2 \in p[r] : k2<r}})
\* where the pattern holds the full factorisation the solve is exact
Exact == (st.ok /\ i=N0 /\ kind#"dilu" /\ pat=FullFill(pat)) =>
   \A e \in 1..N0 : LET d==[k \in 1..N0 |-> <<IF k=e THEN OO ELSE ZZ>>] v==SolveWith(kind,st,pat,d) IN
      \A r \in 1..N0 : FoldLeft(LAMBDA a,c : FAdd(a,FMul(Sc(A[r][c]),v[c][1])),ZZ,Idx(N0))=d[r][1]
----
(* (2) *)
Recs == ndJsonDeserialize(IOEnv.REC)
NR == atoi(IOEnv.NREC)
KC == atoi(IOEnv.CHUNKS)
ToPat(q) == TLCEval([k \in DOMAIN q |-> {q[k][j]+1 : j \in DOMAIN q[k]}])
Blk(F,s,r,c) == TLCEval([a \in 1..s |-> [b \in 1..s |-> F[(r-1)*s+a][(c-1)*s+b]]])
Blocks(J,s,nb) == LET F==FromJM(J) IN TLCEval([r \in 1..nb |-> TLCEval([c \in 1..nb |-> Blk(F,s,r,c)])])
Vec(J,s,nb) == LET v==FromJ(J) IN TLCEval([r \in 1..nb |-> [a \in 1..s |-> v[(r-1)*s+a]]])
Perm(kd,p0,n0) == IF kd="ildl" THEN TLCEval([r \in DOMAIN p0 |-> {c \in p0[r] : c<=r}]) ELSE IF kd="ilu" THEN Fill(p0,n0) ELSE p0
\* a pivot block that cannot be inverted is reported with its row; constrained where the inverted pivots are (signed) powers of two, i.e. exact
RECURSIVE TwoPow(_)
TwoPow(q) == IF q=0 THEN {1} ELSE LET S==TwoPow(q-1) IN S \cup {(2*x)%P : x \in S} \cup {(x*((P+1)\div 2))%P : x \in S}
Dyadic == LET S==TwoPow(6) IN S \cup {P-x : x \in S}
SingOK(d) == LET p==Perm(d.m,ToPat(d.pat),d.n) F==Fact(d.m,Blocks(d.A,d.s,d.nb),p) IN
   (\A k \in DOMAIN F.D : \A r \in 1..d.s : F.D[k][r][r][1] \in Dyadic) =>
     IF F.ok THEN d.out="ok" ELSE d.out="block" /\ d.r=Len(F.D) /\ d.c=d.r
RecOK(d) == IF d.kind="diag" THEN d.thrown=d.missing ELSE IF d.kind="sing" THEN SingOK(d) ELSE
   LET nb==d.nb s==d.s
       p0==ToPat(d.pat)
       p==Perm(d.kind,p0,d.n)
       F==Fact(d.kind,Blocks(d.A,s,nb),p) IN
   F.ok => /\ d.out="ok"
      /\ (d.kind="ilu" => ToPat(d.fpat)=p)
      /\ LET FM==Blocks(d.F,s,nb) IN
         /\ \A r \in 1..nb : FM[r][r]=F.D[r]
         /\ d.kind#"dilu" => \A r \in 1..nb : \A c \in p[r] : r#c => FM[r][c]=F.M[r][c]
      /\ LET v==SolveWith(d.kind,F,p,Vec(d.d,s,nb)) IN
         /\ \A r \in DOMAIN d.vs : LET w==<<d.vs[r].w%P,0>> x==Vec(d.vs[r].v,s,nb) IN \A q \in 1..nb : x[q]=VScale(w,v[q])
      /\ d.pure
JInit == /\ chunk \in 1..KC /\ i=chunk /\ kind=0 /\ n=0 /\ A=0 /\ pat=0 /\ st=0
JNext == i+KC<=NR /\ i'=i+KC /\ UNCHANGED <<kind,n,A,pat,st,chunk>>
RecordOK == i<=NR => RecOK(Recs[i])
=============================================================================
