------------------------------- MODULE Direct -------------------------------
(* Wrappers of direct solvers and their conversion to compressed columns.     *)
(*  (1) machine: the conversion of a row-wise sparse matrix (or of a subset   *)
(*      of its rows and columns) in three passes (count, prefix sums, copy    *)
(*      with one cursor per column).  Invariants: the storage reserved is the *)
(*      storage filled, cursors stay in their columns, and in the end every   *)
(*      column lists exactly the selected entries in ascending order.         *)
(*  (2) machine: the life of a solver object (set, submatrix, save, load,     *)
(*      free, apply): every apply answers for the matrix in force.            *)
(*  (3) judge of recorded histories: the matrix in force is folded over the   *)
(*      steps; applies have to solve with it over the Gaussian integers.      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils
CONSTANTS MaxN, MaxM
----
VARIABLES nr, nc, pat, sel, pass, row, col, nnz, start, mark, ridx, chunk, i
cv == <<nr,nc,pat,sel,pass,row,col,nnz,start,mark,ridx,chunk,i>>
SubIdx(s) == [r \in s |-> Cardinality({q \in s : q<r})]      \* position in the subset
CInit == /\ chunk=0 /\ i=0 /\ nr \in 0..MaxN /\ nc \in 0..MaxM
         /\ pat \in SUBSET ((0..nr-1) \X (0..nc-1))
         /\ sel \in (IF nr=nc THEN SUBSET (0..nr-1) ELSE {}) \cup {{-1}}       \* {-1}: everything
         /\ pass="nnz" /\ row=0 /\ col=0 /\ nnz=0 /\ start = << >> /\ mark = << >> /\ ridx = << >>
Full == sel={-1}
Cols == IF Full THEN nc ELSE Cardinality(sel)
Rows == IF Full THEN nr ELSE Cardinality(sel)
In(r,c) == <<r,c>> \in pat /\ (Full \/ {r,c} \subseteq sel)
Rp(r) == IF Full THEN r ELSE SubIdx(sel)[r]
Want(j) == SetToSortSeq({Rp(q[1]) : q \in {p \in pat : In(p[1],p[2]) /\ Rp(p[2])=j}},<)
RowSel(r) == Full \/ r \in sel
Keep == UNCHANGED <<nr,nc,pat,sel,chunk,i>>
RowNnz == /\ pass="nnz" /\ row<nr
          /\ nnz'= nnz + (IF RowSel(row) THEN Cardinality({c \in 0..nc-1 : In(row,c)}) ELSE 0)
          /\ row'=row+1 /\ UNCHANGED <<pass,col,start,mark,ridx>> /\ Keep
Alloc == /\ pass="nnz" /\ row=nr
         /\ pass'="count" /\ row'=0 /\ col'=0 /\ mark'=[c \in 0..Cols-1 |-> 0] /\ ridx'=[k \in 0..nnz-1 |-> -1]
         /\ UNCHANGED <<nnz,start>> /\ Keep
Advance(p) == IF col+1<nc THEN /\ col'=col+1 /\ row'=row /\ pass'=pass
              ELSE /\ col'=0 /\ row'=row+1 /\ pass'=pass
Count == /\ pass="count" /\ row<nr /\ nc>0
         /\ mark'= IF In(row,col) THEN [mark EXCEPT ![Rp(col)]=@+1] ELSE mark
         /\ Advance("count") /\ UNCHANGED <<nnz,start,ridx>> /\ Keep
Prefix == /\ pass="count" /\ (row=nr \/ nc=0)
          /\ start'=[c \in 0..Cols |-> MapThenSumSet(LAMBDA d : mark[d],{d \in 0..Cols-1 : d<c})]
          /\ mark'=[c \in 0..Cols-1 |-> start'[c]]
          /\ pass'="copy" /\ row'=0 /\ col'=0 /\ UNCHANGED <<nnz,ridx>> /\ Keep
Copy == /\ pass="copy" /\ row<nr /\ nc>0
        /\ IF In(row,col) THEN /\ ridx'=[ridx EXCEPT ![mark[Rp(col)]]=Rp(row)] /\ mark'=[mark EXCEPT ![Rp(col)]=@+1]
           ELSE UNCHANGED <<ridx,mark>>
        /\ Advance("copy") /\ UNCHANGED <<nnz,start>> /\ Keep
CNext == RowNnz \/ Alloc \/ Count \/ Prefix \/ Copy
CursorOK == pass="copy" => \A c \in 0..Cols-1 : mark[c]>=start[c] /\ mark[c]<=start[c+1]
StorageOK == pass="copy" => start[Cols]=nnz
Done == pass="copy" /\ (row=nr \/ nc=0)
ResultOK == Done => \A c \in 0..Cols-1 : [k \in 1..start[c+1]-start[c] |-> ridx[start[c]+k-1]]=Want(c)
----
REC == ndJsonDeserialize(IOEnv.REC)
NREC == atoi(IOEnv.NREC)
CHUNKS == atoi(IOEnv.CHUNKS)
JInit == /\ chunk \in 1..CHUNKS /\ i = (chunk-1)*((NREC+CHUNKS-1) \div CHUNKS) + 1
         /\ nr=0 /\ nc=0 /\ pat=0 /\ sel=0 /\ pass="" /\ row=0 /\ col=0 /\ nnz=0 /\ start=0 /\ mark=0 /\ ridx=0
JNext == /\ i < chunk*((NREC+CHUNKS-1) \div CHUNKS) /\ i<NREC /\ i'=i+1
         /\ UNCHANGED <<nr,nc,pat,sel,pass,row,col,nnz,start,mark,ridx,chunk>>
Pos(s,v) == LET S=={k \in 1..Len(s) : s[k]=v} IN IF S={} THEN 0 ELSE CHOOSE k \in S : TRUE
None == [n |-> 0, m |-> 0, e |-> << >>]
\* the matrix in force after a "set": selected and renumbered entries
Sel(s) == TLCEval(LET top(v)==1+FoldLeft(LAMBDA a,b : IF b>a THEN b ELSE a,0,v)
     rp==TLCEval([v \in 0..top(s.rows) |-> Pos(s.rows,v)])
     cp==TLCEval([v \in 0..top(s.cols) |-> Pos(s.cols,v)])
     R(v)==IF v \in DOMAIN rp THEN rp[v] ELSE 0  Cl(v)==IF v \in DOMAIN cp THEN cp[v] ELSE 0 IN
     [n |-> Len(s.rows), m |-> Len(s.cols),
      e |-> SelectSeq([k \in 1..Len(s.tab) |-> <<R(s.tab[k][1]),Cl(s.tab[k][2]),s.tab[k][3],s.tab[k][4]>>],LAMBDA t : t[1]>0 /\ t[2]>0)])
Times(A,x) == FoldLeft(LAMBDA acc,t : [acc EXCEPT ![t[1]]= <<@[1]+t[3]*x[t[2]][1]-t[4]*x[t[2]][2],@[2]+t[3]*x[t[2]][2]+t[4]*x[t[2]][1]>>],
                       [k \in 1..A.n |-> <<0,0>>],A.e)
Z2(v) == [k \in 1..Len(v) |-> <<v[k][1],v[k][2]>>]
CcsOK(A,s) ==
  /\ s.n=A.n /\ s.m=A.m /\ s.nnz=Len(A.e) /\ Len(s.ri)=s.nnz /\ Len(s.v)=s.nnz
  /\ IF A.m=0 THEN s.cs = << >> \/ (Len(s.cs)=1 /\ s.cs[1]=0)
     ELSE Len(s.cs)=A.m+1 /\ s.cs[1]=0 /\ s.cs[A.m+1]=s.nnz /\ \A k \in 1..A.m : s.cs[k]<=s.cs[k+1]
  /\ LET colOf==TLCEval([p \in 1..s.nnz |-> CHOOSE k \in 1..A.m : s.cs[k]<p /\ p<=s.cs[k+1]]) IN
     {<<s.ri[p]+1,colOf[p],s.v[p][1],s.v[p][2]>> : p \in 1..s.nnz} = {A.e[p] : p \in 1..Len(A.e)}
StepOK(cur,s) ==
  CASE s.op \in {"set","save","load","free"} -> TRUE
    [] s.op="ccs" -> CcsOK(cur,s)
    [] s.op="super" -> s.n=cur.n /\ s.m=cur.m /\ s.nnz=Len(cur.e)
    [] s.op="noapply" -> s.out="err"
    [] s.op="apply" -> /\ Len(s.x)=cur.m /\ Len(s.b)=cur.n /\ s.conv /\ s.it=1 /\ s.cat
                       /\ (\A k \in 1..Len(s.x) : s.x[k][1]#-77777) /\ Times(cur,Z2(s.x))=Z2(s.b)
    [] s.op="rest" -> s.a=s.b
    [] OTHER -> FALSE
Fold(a,s) == \* a = <<ok, current, file>>
  LET cur==CASE s.op="set" -> Sel(s) [] s.op="load" -> a[3] [] s.op="free" -> None [] OTHER -> a[2]
      file==IF s.op="save" THEN a[2] ELSE a[3] IN
  <<a[1] /\ StepOK(cur,s),cur,file>>
HistOK(r) == FoldLeft(Fold,<<TRUE,None,None>>,r.steps)[1]
RecordOK == i>=1 /\ i<=NREC => HistOK(REC[i])
----
\* life of one solver object over abstract matrices
CONSTANTS Mats
LInit == /\ nr="none" /\ nc="none" /\ pat="none" /\ sel=0 /\ pass="" /\ row=0 /\ col=0 /\ nnz=0 /\ start=0 /\ mark=0 /\ ridx="none" /\ chunk=0 /\ i=0
\* nr: matrix in force, nc: saved in the file, pat: matrix the stored factors belong to, ridx: matrix answered for by the last apply
LU == UNCHANGED <<sel,pass,row,col,nnz,start,mark,chunk>>
LSet == \E m \in Mats : nr'=m /\ pat'=m /\ ridx'="none" /\ UNCHANGED <<nc>> /\ i'=i /\ LU
LSave == nr#"none" /\ nc'=pat /\ UNCHANGED <<nr,pat,ridx,i>> /\ LU
LLoad == nc#"none" /\ pat'=nc /\ nr'=nc /\ ridx'="none" /\ UNCHANGED <<nc,i>> /\ LU
LFree == nr'="none" /\ pat'="none" /\ ridx'="none" /\ UNCHANGED <<nc,i>> /\ LU
LApply == nr#"none" /\ ridx'=pat /\ UNCHANGED <<nr,nc,pat,i>> /\ LU
LNext == LSet \/ LSave \/ LLoad \/ LFree \/ LApply
LOK == /\ pat=nr /\ ridx \in {"none",nr}
=============================================================================
