-------------------------------- MODULE Flat --------------------------------
(* Flat enumeration of nested containers.  A shape is a tree [n, s]: n scalars *)
(* in total, s the shapes of the blocks (a scalar has no blocks and n=1).      *)
(*  (1) machine: the traversal with an explicit stack; invariants: the counter *)
(*      is the position of the visited path, every scalar is visited once.     *)
(*  (2) judge of recorded traversals, dimensions and text output.              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, Json, IOUtils, TLC
CONSTANTS MaxB, Depth
Sum(q) == FoldLeft(LAMBDA acc,k : acc+k,0,q)
SumN(s,k) == FoldLeft(LAMBDA acc,m : acc+s[m].n,0,[m \in 1..k |-> m])
RECURSIVE Pos(_,_)
Pos(d,p) == IF p = << >> THEN 0 ELSE SumN(d.s,p[1])+Pos(d.s[p[1]+1],Tail(p))     \* path entries count from 0
RECURSIVE Consistent(_)
Consistent(d) == (d.s # << >> => d.n=SumN(d.s,Len(d.s)) /\ \A k \in DOMAIN d.s : Consistent(d.s[k]))
RECURSIVE IsLeafPath(_,_)
IsLeafPath(d,p) == IF p = << >> THEN d.s = << >> /\ d.n=1 ELSE p[1]<Len(d.s) /\ IsLeafPath(d.s[p[1]+1],Tail(p))
Leaf == [n|->1,s|-> << >>]
Node(s) == [n|->SumN(s,Len(s)),s|->s]
RECURSIVE Shapes(_)
Shapes(k) == IF k=0 THEN {Leaf} ELSE {Node(s) : s \in UNION {[1..m -> Shapes(k-1)] : m \in 0..MaxB}}
RECURSIVE LeavesOf(_)
LeavesOf(d) == IF d.s = << >> THEN IF d.n=1 THEN {<<>>} ELSE {} ELSE UNION {{<<k-1>> \o p : p \in LeavesOf(d.s[k])} : k \in DOMAIN d.s}
----
VARIABLES d, stack, idx, seen, i, chunk
mv == <<d,stack,idx,seen,i,chunk>>
\* the stack holds pairs <<path, shape>> still to be traversed
MInit == d \in Shapes(Depth) /\ stack = << <<<<>>,d>> >> /\ idx=0 /\ seen = << >> /\ i=0 /\ chunk=0
MNext ==
  /\ stack # << >>
  /\ LET p==stack[1][1] t==stack[1][2] IN
     IF t.s = << >> /\ t.n=1 THEN stack'=Tail(stack) /\ idx'=idx+1 /\ seen'=Append(seen,p)
     ELSE stack'=[k \in DOMAIN t.s |-> <<Append(p,k-1),t.s[k]>>] \o Tail(stack) /\ UNCHANGED <<idx,seen>>
  /\ UNCHANGED <<d,i,chunk>>
Numbered == \A k \in DOMAIN seen : Pos(d,seen[k])=k-1 /\ IsLeafPath(d,seen[k])
Complete == stack = << >> => idx=d.n /\ ToSet(seen)=LeavesOf(d) /\ Len(seen)=Cardinality(LeavesOf(d))
----
REC == ndJsonDeserialize(IOEnv.REC)
NREC == atoi(IOEnv.NREC)
CHUNKS == atoi(IOEnv.CHUNKS)
JInit == chunk \in 1..CHUNKS /\ i = (chunk-1)*((NREC+CHUNKS-1) \div CHUNKS) + 1 /\ d=0 /\ stack=0 /\ idx=0 /\ seen=0
JNext == i < chunk*((NREC+CHUNKS-1) \div CHUNKS) /\ i<NREC /\ i'=i+1 /\ UNCHANGED <<d,stack,idx,seen,chunk>>
\* a sequence without repetition enumerates exactly the set S
Enum(q,S) == Len(q)=Cardinality(S) /\ ToSet(q)=S
Ents(r,a,b,o) == {<<Pos(r.rd,e.rp)+a,Pos(r.cd,e.cp)+b,e.re,e.im>> : e \in ToSet(r.tab)}
Val(r,e) == IF r.cx THEN "(" \o ToString(e.re) \o "," \o ToString(e.im) \o ")" ELSE ToString(e.re)
\* rows of tokens of the full print: stored values or dots
Grid(r) == LET V==[q \in {<<Pos(r.rd,e.rp),Pos(r.cd,e.cp)>> : e \in ToSet(r.tab)} |->
                    Val(r,CHOOSE e \in ToSet(r.tab) : <<Pos(r.rd,e.rp),Pos(r.cd,e.cp)>> = q)] IN
   [k \in 1..r.rd.n |-> <<r.text,ToString(k-1)>> \o [l \in 1..r.cd.n |-> IF <<k-1,l-1>> \in DOMAIN V THEN V[<<k-1,l-1>>] ELSE "."]]
\* sparse print: per block row the stored blocks in chunks of w, bn x bm values each, blocks listed by column
SparseRow(r,k,cols) == \* lines of block row k for the chunk of block columns cols
  [x \in 1..r.bn |-> (IF x=1 THEN <<r.text,ToString(k),":">> ELSE << >>) \o
     FoldLeft(LAMBDA acc,c : acc \o (IF x=1 THEN <<ToString(c),":","|">> ELSE <<"|">>) \o
        [y \in 1..r.bm |-> Val(r,CHOOSE e \in ToSet(r.tab) : Pos(r.rd,e.rp)=k*r.bn+x-1 /\ Pos(r.cd,e.cp)=c*r.bm+y-1)] \o <<"|">>,<<>>,cols)]
SparseLines(r) == FoldLeft(LAMBDA acc,k : LET cs==SetToSortSeq({e.cp[1] : e \in {f \in ToSet(r.tab) : f.rp[1]=k}},<)
     nch==(Len(cs)+r.w-1) \div r.w IN
     acc \o FoldLeft(LAMBDA a2,h : a2 \o SparseRow(r,k,SubSeq(cs,h*r.w+1,IF (h+1)*r.w<Len(cs) THEN (h+1)*r.w ELSE Len(cs))),<<>>,[h \in 1..nch |-> h-1]),
     <<>>,[k \in 1..Len(r.rd.s) |-> k-1])
\* extent and offset of a block in a drawing with boxes of size bs and gaps
RECURSIVE Ext(_,_,_)
Ext(t,g,b) == IF t.s = << >> /\ t.n=1 THEN b ELSE g+Sum([k \in DOMAIN t.s |-> Ext(t.s[k],g,b)+g])
RECURSIVE Off(_,_,_,_)
Off(t,p,g,b) == IF p = << >> THEN 0 ELSE g+Sum([k \in 1..p[1] |-> Ext(t.s[k],g,b)+g])+Off(t.s[p[1]+1],Tail(p),g,b)
RECURSIVE At(_,_)
At(t,p) == IF p = << >> THEN t ELSE At(t.s[p[1]+1],Tail(p))
Box(r,p,q) == <<Off(r.cd,q,r.gap,r.bs),Off(r.rd,p,r.gap,r.bs),Ext(At(r.cd,q),r.gap,r.bs),Ext(At(r.rd,p),r.gap,r.bs)>>
MatOK(r) == /\ Consistent(r.rd) /\ Consistent(r.cd)
 /\ CASE r.op="flat" -> Enum(r.seq,Ents(r,r.off[1],r.off[2],0)) /\ r.ret = <<r.rd.n,r.cd.n>>
      [] r.op="dim" -> r.rowdim=r.rd.n /\ r.coldim=r.cd.n /\ r.rows=[k \in 1..Len(r.rd.s) |-> r.rd.s[k].n] /\ r.cols=[k \in 1..Len(r.cd.s) |-> r.cd.s[k].n]
                       /\ r.nnz=Cardinality(ToSet(r.tab)) /\ r.lv=r.elv
      [] r.op="matlab" -> Enum(r.lines,{<<q[1]+1,q[2]+1,q[3]>> \o (IF r.cx THEN <<q[4]>> ELSE << >>) : q \in Ents(r,0,0,0)})
      [] r.op="print" -> r.title = <<Len(r.rd.s),Len(r.cd.s),r.rd.n,r.cd.n>> /\ r.lines=Grid(r) /\ r.kept
      [] r.op="sparse" -> r.title = <<Len(r.rd.s),Len(r.cd.s),r.rd.n,r.cd.n>> /\ r.lines=SparseLines(r) /\ r.kept
      [] r.op="svg" -> LET rect==SelectSeq(r.items,LAMBDA e : e.k="rect") view==SelectSeq(r.items,LAMBDA e : e.k="view")
                            sc=={<<e.rp,e.cp>> : e \in ToSet(r.tab)} bl=={<<e[1],e[2]>> : e \in ToSet(r.eblocks)} IN
            /\ r.open=r.close
            /\ LET hd==SelectSeq(r.items,LAMBDA e : e.k="head") C==Ext(r.cd,r.gap,r.bs) R==Ext(r.rd,r.gap,r.bs) IN
               IF ~r.head THEN hd = << >> ELSE Len(hd)=1 /\ LET w==hd[1].box[3] h==hd[1].box[4] IN
                  /\ w>0 /\ h>0 /\ (r.wh[1]>0 => w=r.wh[1]) /\ (r.wh[2]>0 => h=r.wh[2])
                  /\ (r.wh[1]=0 /\ r.wh[2]>0 => w*R>=h*C /\ (w-1)*R<=h*C) /\ (r.wh[2]=0 /\ r.wh[1]>0 => h*C>=w*R /\ (h-1)*C<=w*R)
            /\ Enum([k \in DOMAIN rect |-> <<rect[k].rp,rect[k].cp>>],sc \cup bl \cup {<< << >>,<< >> >>})
            /\ \A e \in ToSet(rect) : e.box=Box(r,e.rp,e.cp)
            /\ \A e \in ToSet(rect) : <<e.rp,e.cp>> \in sc => \E f \in ToSet(r.tab) : f.rp=e.rp /\ f.cp=e.cp /\ e.v=Val(r,f)
            /\ Enum([k \in DOMAIN view |-> view[k].box],{Box(r,b[1],b[2]) : b \in bl})
      [] OTHER -> FALSE
\* digits: the values are written with the requested number of digits
DigitsOK(r) == r.got=r.want
VecOK(r) == /\ Consistent(r.d) /\ Len(r.vals)=r.d.n
 /\ CASE r.op="flat" -> r.seq=[k \in 1..r.d.n |-> <<k-1+r.off,r.vals[k][1],r.vals[k][2]>>] /\ r.ret=r.d.n /\ r.mod=[k \in 1..r.d.n |-> k-1] /\ r.lv=r.elv
                        /\ (r.dim>=0 => r.dim=r.d.n)
      [] r.op="matlab" -> r.lines=[k \in 1..r.d.n |-> <<Val(r,[re|->r.vals[k][1],im|->r.vals[k][2]])>>]
      [] r.op="print" -> /\ r.title = <<Len(r.d.s),r.d.n>> /\ r.kept
           /\ r.lines=[l \in 1..((r.d.n+r.w-1) \div r.w) |-> <<r.text,ToString((l-1)*r.w)>> \o
                [k \in 1..(IF l*r.w<=r.d.n THEN r.w ELSE r.d.n-(l-1)*r.w) |-> LET v==r.vals[(l-1)*r.w+k] IN Val(r,[re|->v[1],im|->v[2]])]]
      [] OTHER -> FALSE
\* rows of a distributed matrix printed by their owners: lines <<global row, global column, value>> in the order of printing
ParOK(r) == /\ \A p \in DOMAIN r.lines : Enum(r.lines[p],{<<e[1],e[2],e[3]>> : e \in ToSet(r.want[p])})
            /\ \A p \in DOMAIN r.lines : \A k \in 1..Len(r.lines[p])-1 : r.lines[p][k][1]<r.lines[p][k+1][1] \/ (r.lines[p][k][1]=r.lines[p][k+1][1] /\ r.lines[p][k][2]<r.lines[p][k+1][2])
JudgeRec(r) == CASE r.kind="mat" -> MatOK(r) [] r.kind="vec" -> VecOK(r) [] r.kind="digits" -> DigitsOK(r) [] r.kind="par" -> ParOK(r) [] OTHER -> FALSE
RecordOK == i<=NREC => JudgeRec(REC[i])
=============================================================================
