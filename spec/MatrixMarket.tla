---------------------------- MODULE MatrixMarket ----------------------------
(* Matrix Market files.  A file is a banner (field, symmetry, format) and a   *)
(* sequence of lines; a line is blank, a comment or a list of numbers.  All   *)
(* numbers are given as multiples of 1/U (an index i is the number i*U).      *)
(*  (1) machine: a writer emits the stored entries of a matrix one per line   *)
(*      in any order, with blank lines in between, a reader consumes the      *)
(*      lines: the reader has reconstructed the matrix exactly when           *)
(*      everything was written, for every field, symmetry and block shape.    *)
(*  (2) judge of what the library reads, writes and stores.                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, Json, IOUtils, TLC
CONSTANTS N0, U
BAD == -77777777
\* ---- reader: st=[mode,rows,cols,left,ent,done]
RInit == [mode|->"size",rows|->0,cols|->0,left|->0,ent|->{}]
IsIdx(t) == t # BAD /\ t>=0 /\ t%U=0
NVal(field) == CASE field="pattern" -> 0 [] field="complex" -> 2 [] OTHER -> 1
Fail(st) == [st EXCEPT !.mode="bad"]
Size3(st,t) == IF Len(t) # 3 \/ \E k \in DOMAIN t : ~IsIdx(t[k]) THEN Fail(st)
               ELSE [st EXCEPT !.mode=(IF t[3]=0 THEN "done" ELSE "entries"),!.rows=t[1]\div U,!.cols=t[2]\div U,!.left=t[3]\div U]
EntryOf(field,t) == [i|->t[1]\div U,j|->t[2]\div U,re|->IF field="pattern" THEN 0 ELSE t[3],im|->IF field="complex" THEN t[4] ELSE 0]
Entry(st,field,sym,t) ==
   IF Len(t) # 2+NVal(field) \/ \E k \in DOMAIN t : t[k]=BAD THEN Fail(st)
   ELSE IF ~(IsIdx(t[1]) /\ IsIdx(t[2])) THEN Fail(st)
   ELSE LET e==EntryOf(field,t) IN
        IF ~(e.i \in 1..st.rows /\ e.j \in 1..st.cols) THEN Fail(st)
        ELSE [st EXCEPT !.ent=@ \cup {e},!.left=@-1,!.mode=(IF st.left=1 THEN "done" ELSE "entries")]
Line(st,b,l) == IF l.k # "data" THEN st
   ELSE CASE st.mode="size" -> Size3(st,l.t) [] st.mode="entries" -> Entry(st,b.field,b.sym,l.t) [] OTHER -> st
Read(b,lines) == FoldLeft(LAMBDA s,l : Line(s,b,l),RInit,lines)
\* ---- meaning of the stored entries
Mirror(sym,e) == [i|->e.j,j|->e.i,
   re|->IF sym="skew-symmetric" THEN -e.re ELSE e.re,
   im|->CASE sym="symmetric" -> e.im [] sym="skew-symmetric" -> -e.im [] sym="hermitian" -> -e.im]
Expand(sym,S) == IF sym="general" THEN S ELSE S \cup {Mirror(sym,e) : e \in {x \in S : x.i # x.j}}
\* a reader state as a matrix with br x bc blocks: pattern of blocks and nonzero scalars
Bks(S,br,bc) == {<<(e.i-1)\div br,(e.j-1)\div bc>> : e \in S}
Vals(S) == {<<e.i,e.j,e.re,e.im>> : e \in {x \in S : x.re # 0 \/ x.im # 0}}
\* can the file be read into blocks of this shape and field?
Readable(b,st,tg) == /\ b.format="coordinate" /\ st.mode="done" /\ st.rows%tg.br=0 /\ st.cols%tg.bc=0
   /\ (b.sym # "general" => st.rows=st.cols)
   /\ (b.field="complex" => tg.cplx)
----
(* (1) *)
VARIABLES M, hdr, todo, rd, blanks, i, chunk
mv == <<M,hdr,todo,rd,blanks,i,chunk>>
Syms == {"general","symmetric","skew-symmetric","hermitian"}
Fields == {"real","complex","pattern"}
\* a matrix of the given symmetry: entries derived from a set of lower positions (all positions if general)
Val(r,c,f) == [re|->IF f="pattern" THEN 0 ELSE 2*r+c-3, im|->IF f="complex" THEN r-2*c ELSE 0]
Ent(r,c,f) == [i|->r,j|->c,re|->Val(r,c,f).re,im|->Val(r,c,f).im]
Stored(S,f,s) == {LET e==Ent(p[1],p[2],f) IN IF p[1]=p[2] /\ s="hermitian" THEN [e EXCEPT !.im=0] ELSE e : p \in S}
Pos(s) == {p \in (1..N0) \X (1..N0) : s="general" \/ p[1]>p[2] \/ (p[1]=p[2] /\ s # "skew-symmetric")}
\* the matrix itself, from its definition
Full(S,f,s) == LET st==Stored(S,f,s) at(r,c)==CHOOSE e \in st : e.i=r /\ e.j=c IN
   {IF <<r,c>> \in S THEN at(r,c)
    ELSE LET e==at(c,r) IN CASE s="symmetric" -> [e EXCEPT !.i=r,!.j=c] [] s="skew-symmetric" -> [i|->r,j|->c,re|->-e.re,im|->-e.im]
           [] OTHER -> [i|->r,j|->c,re|->e.re,im|->-e.im] :
      <<r,c>> \in S \cup (IF s="general" THEN {} ELSE {<<p[2],p[1]>> : p \in S})}
SizeLine(n) == [k|->"data",t|-> <<N0*U,N0*U,n*U>>]
EntLine(e,f) == [k|->"data",t|-> <<e.i*U,e.j*U>> \o (IF f="pattern" THEN <<>> ELSE <<e.re>>) \o (IF f="complex" THEN <<e.im>> ELSE <<>>)]
MInit == \E f \in Fields, s \in Syms : /\ (s="hermitian" => f="complex") /\ (f="pattern" => s \in {"general","symmetric"})
   /\ \E S \in SUBSET Pos(s) : /\ hdr=[format|->"coordinate",field|->f,sym|->s] /\ M=Full(S,f,s) /\ todo=Stored(S,f,s)
       /\ rd=Line(RInit,hdr,SizeLine(Cardinality(S))) /\ blanks=0 /\ i=0 /\ chunk=0
MNext == \/ \E e \in todo : todo'=todo \ {e} /\ rd'=Line(rd,hdr,EntLine(e,hdr.field)) /\ UNCHANGED <<M,hdr,blanks,i,chunk>>
         \/ blanks<1 /\ blanks'=1 /\ rd'=Line(rd,hdr,[k|->"blank",t|-> <<>>]) /\ UNCHANGED <<M,hdr,todo,i,chunk>>
Complete == (rd.mode="done") <=> (todo={})
Partial == rd.mode # "bad" /\ rd.left=Cardinality(todo) /\ Expand(hdr.sym,rd.ent \cup todo)=M
Blocks == todo={} => \A br \in 1..N0, bc \in 1..N0 : (N0%br=0 /\ N0%bc=0) =>
    LET X==Expand(hdr.sym,rd.ent) IN
    /\ Readable(hdr,rd,[br|->br,bc|->bc,cplx|->TRUE])
    /\ \A R \in 0..(N0\div br-1), C \in 0..(N0\div bc-1) : (<<R,C>> \in Bks(X,br,bc)) <=> \E e \in M : e.i \in (R*br+1)..(R*br+br) /\ e.j \in (C*bc+1)..(C*bc+bc)
    /\ Vals(X)=Vals(M)
----
(* (2) *)
Recs == ndJsonDeserialize(IOEnv.REC)
NR == atoi(IOEnv.NREC)
KC == atoi(IOEnv.CHUNKS)
PatOf(p) == {<<r-1,p[r][c]>> : <<r,c>> \in {x \in (DOMAIN p) \X (1..20) : x[2] \in DOMAIN p[x[1]]}}
SetOf(s) == {s[k] : k \in DOMAIN s}
\* a file without a (correct) banner has the default one
Default(b,fmt) == IF b.format="?" THEN [format|->fmt,field|->"real",sym|->"general"] ELSE b
\* reading a file
ReadOK(d) == LET b==Default(d.banner,"coordinate") st==Read(b,d.lines) IN
   IF ~Readable(b,st,d.target) THEN d.out="err"
   ELSE /\ d.out="ok" /\ d.N*d.target.br=st.rows /\ d.M*d.target.bc=st.cols
        /\ LET X==Expand(b.sym,st.ent) IN PatOf(d.pat)=Bks(X,d.target.br,d.target.bc) /\ SetOf(d.vals)=Vals(X)
        /\ d.nnz=Cardinality(PatOf(d.pat))
\* vectors: array format, the columns one after the other
VLine(st,b,l) == IF l.k # "data" THEN st
   ELSE IF st.mode="size" THEN (IF Len(l.t) # 2 \/ \E k \in DOMAIN l.t : ~IsIdx(l.t[k]) THEN Fail(st) ELSE [st EXCEPT !.mode="entries",!.rows=l.t[1]\div U,!.cols=l.t[2]\div U])
   ELSE IF Len(l.t) # NVal(b.field) \/ \E k \in DOMAIN l.t : l.t[k]=BAD THEN Fail(st)
   ELSE [st EXCEPT !.ent=Append(@,<<l.t[1],IF b.field="complex" THEN l.t[2] ELSE 0>>)]
VRead(b,lines) == FoldLeft(LAMBDA s,l : VLine(s,b,l),[RInit EXCEPT !.ent= <<>>],lines)
VReadable(b,st,tg) == /\ b.format="array" /\ b.field # "pattern" /\ (b.field="complex" => tg.cplx)
   /\ st.mode="entries" /\ st.cols=tg.lanes /\ st.rows%tg.br=0 /\ Len(st.ent)=st.rows*st.cols
VecOK(d) == LET b==Default(d.banner,"array") st==VRead(b,d.lines) IN
   IF ~VReadable(b,st,d.target) THEN d.out="err"
   ELSE d.out="ok" /\ d.N*d.target.br=st.rows /\ d.vals=st.ent
\* what was written is a conforming file of exactly this object
WriteOK(d) == /\ d.banner.format="coordinate" /\ d.banner.sym="general" /\ d.banner.field=d.field
   /\ LET st==Read(d.banner,d.lines) IN
      /\ st.mode="done" /\ st.rows=d.N*d.target.br /\ st.cols=d.M*d.target.bc
      /\ Cardinality({k \in DOMAIN d.lines : d.lines[k].k="data"})=1+Cardinality(PatOf(d.pat))*d.target.br*d.target.bc
      /\ Bks(st.ent,d.target.br,d.target.bc)=PatOf(d.pat) /\ Vals(st.ent)=SetOf(d.vals)
      /\ Cardinality(st.ent)=Cardinality(PatOf(d.pat))*d.target.br*d.target.bc
WriteVecOK(d) == /\ d.banner.format="array" /\ d.banner.sym="general" /\ d.banner.field=d.field
   /\ LET st==VRead(d.banner,d.lines) IN st.mode="entries" /\ st.rows=d.N*d.target.br /\ st.cols=d.target.lanes /\ st.ent=d.vals
\* stored and loaded again: the same to the stored precision
RoundOK(d) == d.err="" /\ d.sizes=d.sizes2 /\ d.a=d.b
\* distributed: every process gets back its part, its indices, its neighbours and can communicate
ParOK(d) == /\ d.err="" /\ d.a=d.b /\ d.idx=d.idx2 /\ d.comm=d.comm2
   /\ d.nb2=d.nb
RecOK(d) == CASE d.kind="read" -> ReadOK(d) [] d.kind="readv" -> VecOK(d) [] d.kind="write" -> WriteOK(d) [] d.kind="writev" -> WriteVecOK(d)
   [] d.kind="round" -> RoundOK(d) [] d.kind="par" -> ParOK(d)
JInit == /\ chunk \in 1..KC /\ i=chunk /\ M=0 /\ hdr=0 /\ todo=0 /\ rd=0 /\ blanks=0
JNext == i+KC<=NR /\ i'=i+KC /\ UNCHANGED <<M,hdr,todo,rd,blanks,chunk>>
RecordOK == i<=NR => RecOK(Recs[i])
=============================================================================
