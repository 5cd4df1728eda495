------------------------------- MODULE Thomas -------------------------------
(* Block tridiagonal and block diagonal matrices: their histories (creation,  *)
(* resizing, assignment, setters, inversion) and the direct solves.           *)
(*  (1) machine: the Thomas elimination of scalar tridiagonal systems, row by *)
(*      row, then back substitution; invariants: the eliminated system has    *)
(*      the same solutions, the result solves the system, and elimination is  *)
(*      defined exactly when the leading principal minors do not vanish.      *)
(*  (2) judge of recorded histories: the state of an object is its number n   *)
(*      of block rows and its values as an (n k) x (n k) matrix.              *)
EXTENDS FieldLA, Json, IOUtils
CONSTANTS N0, Vals
Band(w,a,b) == a-b<=w /\ b-a<=w            \* w=1 tridiagonal, w=0 diagonal
\* block pivots of the elimination without exchange of rows; << >> entries mark breakdown
Blk(A,k,a,b) == [x \in 1..k |-> [y \in 1..k |-> A[(a-1)*k+x][(b-1)*k+y]]]
RECURSIVE PivInv(_,_,_,_)
PivInv(A,k,n,w) == \* sequence of the inverse block pivots, shorter than n if elimination breaks down
  IF n=0 THEN <<>> ELSE LET prev==PivInv(A,k,n-1,w) IN
  IF Len(prev)<n-1 THEN prev ELSE
  LET d==IF n=1 \/ w=0 THEN Blk(A,k,n,n) ELSE MSub(Blk(A,k,n,n),MMul(MMul(Blk(A,k,n,n-1),prev[n-1]),Blk(A,k,n-1,n)))
      v==MInv(d) IN IF v = << >> THEN prev ELSE Append(prev,v)
Defined(A,k,n,w) == Len(PivInv(A,k,n,w))=n
----
VARIABLES n, A, b, i, c, d, x, ok, chunk
mv == <<n,A,b,i,c,d,x,ok,chunk>>
MInit == /\ chunk=0 /\ n \in 1..N0 /\ i=1 /\ c = << >> /\ d = << >> /\ x = << >> /\ ok=TRUE
         /\ A \in {m \in [1..n -> [1..n -> Vals]] : \A k,l \in 1..n : ~Band(1,k,l) => m[k][l]=ZZ}
         /\ b \in {[k \in 1..n |-> IF k=s THEN OO ELSE <<t,k%P>>] : s \in 1..n, t \in 0..1}
Forward ==
  /\ ok /\ i<=n
  /\ LET p==IF i=1 THEN A[1][1] ELSE FSub(A[i][i],FMul(A[i][i-1],c[i-1])) IN
     IF p=ZZ THEN ok'=FALSE /\ UNCHANGED <<c,d,i>>
     ELSE /\ d'=Append(d,FDiv(IF i=1 THEN b[1] ELSE FSub(b[i],FMul(A[i][i-1],d[i-1])),p))
          /\ c'=IF i<n THEN Append(c,FDiv(A[i][i+1],p)) ELSE c
          /\ i'=i+1 /\ ok'=TRUE
  /\ UNCHANGED <<n,A,b,x,chunk>>
Backward ==
  /\ ok /\ i>n /\ Len(x)<n
  /\ LET k==n-Len(x) IN x'= << IF k=n THEN d[n] ELSE FSub(d[k],FMul(c[k],x[1])) >> \o x
  /\ UNCHANGED <<n,A,b,i,c,d,ok,chunk>>
MNext == Forward \/ Backward
Solved == Len(x)=n => MVec(A,x)=b
BreakIff == (~ok => ~Defined(A,1,n,1)) /\ (i>n => Defined(A,1,n,1))
\* rows below i of the back-substituted part already hold
Partial == Len(x)>0 => LET k0==n-Len(x) IN \A k \in k0+2..n : Row([l \in 1..n |-> A[k][l]],[l \in 1..n |-> IF l>k0 THEN x[l-k0] ELSE ZZ])=b[k]
----
REC == ndJsonDeserialize(IOEnv.REC)
NREC == atoi(IOEnv.NREC)
CHUNKS == atoi(IOEnv.CHUNKS)
JInit == /\ chunk \in 1..CHUNKS /\ i = (chunk-1)*((NREC+CHUNKS-1) \div CHUNKS) + 1
         /\ n=0 /\ A=0 /\ b=0 /\ c=0 /\ d=0 /\ x=0 /\ ok=TRUE
JNext == /\ i < chunk*((NREC+CHUNKS-1) \div CHUNKS) /\ i<NREC /\ i'=i+1 /\ UNCHANGED <<n,A,b,c,d,x,ok,chunk>>
\* an object as observed
PatOK(o,w) == /\ o.N=o.n /\ o.M=o.n /\ Len(o.pat)=o.n
              /\ \A r \in 1..o.n : o.pat[r]=SetToSortSeq({l \in 1..o.n : Band(w,r,l)},<)
              /\ o.nnz=Cardinality({q \in (1..o.n) \X (1..o.n) : Band(w,q[1],q[2])})
Same(o,p) == o.n=p.n /\ FromJM(o.v)=FromJM(p.v)
Scal(o,k,w,full,s) == TLCEval([r \in 1..o.n*k |-> [l \in 1..o.n*k |->
   IF Band(w,(r-1) \div k,(l-1) \div k) /\ (full \/ (r-1)%k=(l-1)%k) THEN s ELSE ZZ]])
StepOK(st,pre,k,w,full) ==
  LET o==st.o q==3-o new==st.post[o] old==pre[o] M==FromJM(old.v) IN
  /\ \A m \in 1..2 : PatOK(st.post[m],w)
  /\ st.op # "swapobj" => Same(st.post[q],pre[q])
  /\ CASE st.op \in {"ctor","size","list"} -> st.out="ok" /\ new.n=st.n /\ FromJM(new.v)=FromJM(st.vals)
       [] st.op="default" -> st.out="ok" /\ new.n=0
       [] st.op \in {"assign","copy"} -> st.out="ok" /\ Same(new,pre[q])
       [] st.op="scalar" -> st.out="ok" /\ new.n=old.n /\ FromJM(new.v)=Scal(old,k,w,full,<<st.s[1],st.s[2]>>)
       [] st.op="invert" -> new.n=old.n /\ (Defined(M,k,old.n,0) => st.out="ok" /\ LET V==FromJM(new.v) IN
              \A r \in 1..old.n : MMul(Blk(M,k,r,r),Blk(V,k,r,r))=IdM(k))
       [] st.op="solve" -> Same(new,old) /\ (Defined(M,k,old.n,w) => st.out="ok" /\ Len(st.x)=old.n*k /\ MVec(M,FromJ(st.x))=FromJ(st.b))
       [] OTHER -> FALSE
HistOK(r) == \A t \in 1..Len(r.steps) : StepOK(r.steps[t],IF t=1 THEN <<r.init,r.init>> ELSE r.steps[t-1].post,r.k,r.w,r.full)
\* scaled identity blocks p I of size k
SidOK(r) == LET p==<<r.p[1],r.p[2]>> q==<<r.q[1],r.q[2]>> sc(a)==[u \in 1..r.k |-> [l \in 1..r.k |-> IF u=l THEN a ELSE ZZ]] IN
  /\ FromJM(r.add)=sc(FAdd(p,q)) /\ FromJM(r.sub)=sc(FSub(p,q)) /\ FromJM(r.mul)=sc(FMul(p,q)) /\ FromJM(r.ml)=sc(FMul(q,p))
  /\ FromJM(r.self)=sc(p) /\ FromJM(r.dense)=sc(p) /\ FromJM(r.addk)=sc(FAdd(p,q)) /\ FromJM(r.subk)=sc(FSub(p,q)) /\ FromJM(r.asg)=sc(q)
  /\ (r.eq <=> p=q) /\ (r.ne <=> p#q)
  /\ q#ZZ => /\ FromJM(r.div)=sc(FDiv(p,q)) /\ MVec(sc(q),FromJ(r.x))=FromJ(r.b) /\ FromJM(r.inv)=sc(FInv(q))
  /\ \A u,l \in 1..r.k : r.ex[u][l]=(u=l)
  /\ r.det=FoldLeft(LAMBDA acc,u : acc*r.di,1,Idx(r.k))
JudgeRec(r) == CASE r.kind="hist" -> HistOK(r) [] r.kind="sid" -> SidOK(r) [] OTHER -> FALSE
RecordOK == i<=NREC => JudgeRec(REC[i])
=============================================================================
