------------------------------ MODULE AmgCycle ------------------------------
(* Multigrid cycles.  The machine below works off one application of a cycle  *)
(* with explicit per-level state (correction, right hand side) the way an     *)
(* implementation does; it is checked to produce v = M d for the operator M   *)
(* composed from smoothers, transfer and coarse solver, for every small       *)
(* hierarchy.  Recorded applications of AMG (multiplicative, additive), KAMG, *)
(* FastAMG and TwoLevelMethod are judged against that operator.               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
CONSTANTS P, Deep
----
(* linear algebra over GF(P): matrices are sequences of rows *)
F(a) == a % P
Dot(u,v) == FoldLeft(LAMBDA acc,k : (acc+u[k]*v[k])%P,0,[k \in 1..Len(u) |-> k])
MV(A,x) == TLCEval([r \in 1..Len(A) |-> Dot(A[r],x)])
Col(B,c) == [k \in 1..Len(B) |-> B[k][c]]
NCol(B) == IF Len(B)=0 THEN 0 ELSE Len(B[1])
MM(A,B) == LET cs==TLCEval([c \in 1..NCol(B) |-> Col(B,c)]) IN TLCEval([r \in 1..Len(A) |-> TLCEval([c \in 1..NCol(B) |-> Dot(A[r],cs[c])])])
MAdd(A,B) == TLCEval([r \in 1..Len(A) |-> TLCEval([c \in 1..NCol(A) |-> (A[r][c]+B[r][c])%P])])
MSub(A,B) == TLCEval([r \in 1..Len(A) |-> TLCEval([c \in 1..NCol(A) |-> (A[r][c]-B[r][c])%P])])
MScale(s,A) == TLCEval([r \in 1..Len(A) |-> TLCEval([c \in 1..NCol(A) |-> (s*A[r][c])%P])])
VAdd(u,v) == TLCEval([k \in 1..Len(u) |-> (u[k]+v[k])%P])
VSub(u,v) == TLCEval([k \in 1..Len(u) |-> (u[k]-v[k])%P])
VScale(s,u) == TLCEval([k \in 1..Len(u) |-> (s*u[k])%P])
VZero(n) == [k \in 1..n |-> 0]
Zero(n,m) == [r \in 1..n |-> [c \in 1..m |-> 0]]
Tr(A,m) == TLCEval([c \in 1..m |-> TLCEval([r \in 1..Len(A) |-> A[r][c]])])
\* Q W Q^T for a prolongation Q from nc coarse unknowns
Through(Q,W,nc) == IF nc=0 THEN Zero(Len(Q),Len(Q)) ELSE MM(Q,MM(W,Tr(Q,nc)))
(* prolongation of an aggregates map (-1: isolated, no coarse unknown), blocks of size bs *)
Pro(map,bs,nc) == TLCEval([r \in 1..Len(map)*bs |-> TLCEval([c \in 1..nc |->
     IF map[((r-1)\div bs)+1]*bs+((r-1)%bs)+1 = c /\ map[((r-1)\div bs)+1]>=0 THEN 1 ELSE 0])])
----
(* first B1, then B2 on the defect left over *)
Comp(A,B1,B2) == MSub(MAdd(B1,B2),MM(B2,MM(A,B1)))
RECURSIVE Rep(_,_,_)
Rep(A,B,k) == IF k=0 THEN Zero(Len(A),Len(A)) ELSE IF k=1 THEN B ELSE Comp(A,Rep(A,B,k-1),B)
\* h: [lev |-> sequence of levels, C, kind, gamma, npre, npost, ksteps, damp, bs]
Top(h) == Len(h.lev)
TwoGrid(h,l,W) == LET L==h.lev[l] A==L.A Q==Pro(L.map,h.bs,Len(h.lev[l+1].A)) one==h.kind="fast"
                      cc==MScale(h.damp,Through(Q,W,Len(h.lev[l+1].A)))
                      s1==Rep(A,L.pre,IF one THEN 1 ELSE h.npre) s2==Rep(A,L.post,IF one THEN 1 ELSE h.npost) IN
   Comp(A,Comp(A,s1,cc),s2)
RECURSIVE Cyc(_,_), AddC(_,_)
Cyc(h,l) == IF l=Top(h) THEN h.C ELSE
  TwoGrid(h,l,IF l+1=Top(h) THEN h.C ELSE Rep(h.lev[l+1].A,Cyc(h,l+1),IF h.kind="kamg" THEN h.ksteps ELSE h.gamma))
AddC(h,l) == IF l=Top(h) THEN h.C ELSE
  LET nc==Len(h.lev[l+1].A) Q==Pro(h.lev[l].map,h.bs,nc) IN MAdd(h.lev[l].app,Through(Q,AddC(h,l+1),nc))
Method(h) == IF h.kind="add" /\ Top(h)>1 THEN AddC(h,1) ELSE Cyc(h,1)
----
(* the machine *)
VARIABLES h, d, lev, ph, u, r, c, cnt, chunk, i
mv == <<h,d,lev,ph,u,r,c,cnt,chunk,i>>
\* levels 1..L; ph[l]: phase of level l; u: correction, r: what is left of the right hand side
\* c: the correction found last; cnt[l]: cycles done on level l
Sz(l) == Len(h.lev[l].A)
Mats1 == {<<<<a>>>> : a \in 0..P-1}
Mats2 == IF Deep THEN {<<<<a,b>>,<<b,2>>>> : a,b \in 0..P-1} ELSE {<<<<2,1>>,<<1,a>>>> : a \in 0..P-1}
Sm2 == IF Deep THEN {<<<<a,0>>,<<b,1>>>> : a,b \in 0..P-1} ELSE {<<<<1,0>>,<<a,2>>>> : a \in 0..P-1}
Maps == {<<0,0>>,<<0,-1>>,<<-1,0>>}
\* fine level 2 unknowns, coarser levels 1 unknown each
Hier == [kind : {"amg"}, bs : {1}, gamma : 1..2, npre : 0..1, npost : 0..1, ksteps : {1}, damp : 1..(IF Deep THEN 2 ELSE 1), C : Mats1,
         lev : {<<[A|->a,map|->q,pre|->s,post|->s],[A|->MM(Tr(Pro(q,1,1),1),MM(a,Pro(q,1,1))),map|-><<0>>,pre|-><<<<1>>>>,post|-><<<<2>>>>],[A|->MM(Tr(Pro(q,1,1),1),MM(a,Pro(q,1,1))),map|-><< >>,pre|-><< >>,post|-><< >>]>> : a \in Mats2, q \in Maps, s \in Sm2}]
MInit == /\ h \in Hier /\ d \in {<<1,0>>,<<0,1>>} /\ lev=1 /\ chunk=0 /\ i=0
         /\ ph=[l \in 1..3 |-> IF l=1 THEN "pre" ELSE "off"] /\ u=[l \in 1..3 |-> VZero(Sz(l))]
         /\ r=[l \in 1..3 |-> IF l=1 THEN d ELSE VZero(Sz(l))] /\ c=[l \in 1..3 |-> VZero(Sz(l))] /\ cnt=[l \in 1..3 |-> 0]
Keep == UNCHANGED <<h,d,chunk,i>>
Smooth(B,next) == LET x==MV(B,r[lev]) IN /\ u'=[u EXCEPT ![lev]=VAdd(@,x)] /\ r'=[r EXCEPT ![lev]=VSub(@,MV(h.lev[lev].A,x))]
                     /\ ph'=[ph EXCEPT ![lev]=next] /\ UNCHANGED <<lev,c,cnt>> /\ Keep
Skip(next) == ph'=[ph EXCEPT ![lev]=next] /\ UNCHANGED <<lev,u,r,c,cnt>> /\ Keep
Pre == ph[lev]="pre" /\ lev<3 /\ IF h.npre=1 THEN Smooth(h.lev[lev].pre,"down") ELSE Skip("down")
Down == /\ ph[lev]="down" /\ lev'=lev+1 /\ ph'=[ph EXCEPT ![lev]="up",![lev+1]="pre"] /\ u'=[u EXCEPT ![lev+1]=VZero(Sz(lev+1))]
        /\ r'=[r EXCEPT ![lev+1]=MV(Tr(Pro(h.lev[lev].map,1,Sz(lev+1)),Sz(lev+1)),r[lev])] /\ cnt'=[cnt EXCEPT ![lev+1]=0] /\ UNCHANGED c /\ Keep
Solve == /\ ph[lev]="pre" /\ lev=3 /\ u'=[u EXCEPT ![3]=MV(h.C,r[3])] /\ ph'=[ph EXCEPT ![3]="off"] /\ lev'=2 /\ UNCHANGED <<r,c,cnt>> /\ Keep
Up == /\ ph[lev]="up" /\ LET x==VScale(h.damp,MV(Pro(h.lev[lev].map,1,Sz(lev+1)),u[lev+1])) IN
           /\ u'=[u EXCEPT ![lev]=VAdd(@,x)] /\ r'=[r EXCEPT ![lev]=VSub(@,MV(h.lev[lev].A,x))]
      /\ ph'=[ph EXCEPT ![lev]="post"] /\ UNCHANGED <<lev,c,cnt>> /\ Keep
Post == ph[lev]="post" /\ IF h.npost=1 THEN Smooth(h.lev[lev].post,"end") ELSE Skip("end")
\* a cycle on a level below the finest is repeated gamma times on what is left
End == /\ ph[lev]="end" /\ cnt'=[cnt EXCEPT ![lev]=@+1]
       /\ IF lev=1 THEN ph'=[ph EXCEPT ![1]="done"] /\ UNCHANGED lev
          ELSE IF cnt[lev]+1<h.gamma THEN ph'=[ph EXCEPT ![lev]="pre"] /\ UNCHANGED lev
          ELSE ph'=[ph EXCEPT ![lev]="off"] /\ lev'=lev-1
       /\ UNCHANGED <<u,r,c>> /\ Keep
MNext == Pre \/ Down \/ Solve \/ Up \/ Post \/ End
\* what is left of the defect is the defect of the correction found so far
Residual == r[1]=VSub(d,MV(h.lev[1].A,u[1]))
Result == ph[1]="done" => u[1]=MV(Method(h),d)
\* a residual the cycle cannot reduce stays zero; an exact cycle solves
Linear == ph[1]="done" => \A s \in 0..P-1 : MV(Method(h),VScale(s,d))=VScale(s,u[1])
----
REC == ndJsonDeserialize(IOEnv.REC)
NREC == atoi(IOEnv.NREC)
CHUNKS == atoi(IOEnv.CHUNKS)
JInit == /\ chunk \in 1..CHUNKS /\ i = (chunk-1)*((NREC+CHUNKS-1) \div CHUNKS) + 1
         /\ h=0 /\ d=0 /\ lev=0 /\ ph=0 /\ u=0 /\ r=0 /\ c=0 /\ cnt=0
JNext == /\ i < chunk*((NREC+CHUNKS-1) \div CHUNKS) /\ i<NREC /\ i'=i+1
         /\ UNCHANGED <<h,d,lev,ph,u,r,c,cnt,chunk>>
\* hierarchy: coarse matrices are the Galerkin products
Galerkin(x) == \A l \in 1..Top(x)-1 : LET nc==Len(x.lev[l+1].A) Q==Pro(x.lev[l].map,x.bs,nc) IN
   /\ Len(x.lev[l].map)*x.bs=Len(x.lev[l].A) /\ \A k \in 1..Len(x.lev[l].map) : x.lev[l].map[k] \in -1..(nc\div x.bs)-1
   /\ x.lev[l+1].A=MM(Tr(Q,nc),MM(x.lev[l].A,Q))
\* the Gauss-Seidel halves of FastAMG
GSOK(x) == x.kind="fast" => \A l \in 1..Top(x)-1 : LET A==x.lev[l].A bs==x.bs n==Len(A)
     Half(up) == [p \in 1..n |-> [q \in 1..n |-> IF (p-1)\div bs=(q-1)\div bs \/ (IF up THEN q>p ELSE q<p) THEN A[p][q] ELSE 0]]
     I==[p \in 1..n |-> [q \in 1..n |-> IF p=q THEN 1 ELSE 0]] IN
  /\ MM(Half(FALSE),x.lev[l].pre)=I /\ MM(Half(TRUE),x.lev[l].post)=I
\* pre(): unknowns that only couple to themselves are solved for, everything else stays
PreOK(x) == LET A==IF Top(x)=0 THEN << >> ELSE x.lev[1].A bs==x.bs n==x.n IN
   /\ x.b1=x.b0 /\ Len(x.x1)=n
   /\ \A q \in 0..(n\div bs)-1 : LET rows==q*bs+1..q*bs+bs
          dir==x.kind # "two" /\ (\A p \in rows : \A k \in 1..n : k \in rows \/ A[p][k]=0) /\ (\E p \in rows : \E k \in rows : A[p][k] # 0) IN
        IF dir THEN \A p \in rows : Dot([k \in 1..bs |-> A[p][q*bs+k]],[k \in 1..bs |-> x.x1[q*bs+k]])=x.b0[p]
        ELSE \A p \in rows : x.x1[p]=x.x0[p]
ApplyOK(x,M,a) == a.d1=a.d /\ a.v=MV(M,a.d)
\* what a smoother is asked for (1 prepare, 2 apply any number of times, 3 finish): it is applied while prepared only and
\* prepared and finished in turns
Protocol(hist) == FoldLeft(LAMBDA st,k : IF st=1 THEN IF k=2 THEN 1 ELSE IF k=3 THEN 0 ELSE -1 ELSE IF st=0 /\ k=1 THEN 1 ELSE -1,0,hist)
ProtoOK(x) == "proto" \in DOMAIN x => \A k \in 1..Len(x.proto) : Len(x.proto[k])>0 /\ Protocol(x.proto[k])=0
RecordOK == (i<=NREC /\ i<=chunk*((NREC+CHUNKS-1) \div CHUNKS)) =>
  LET x==REC[i] IN IF x.kind="copy" THEN x.what="ok" /\ x.same
  ELSE /\ x.what="ok" /\ ("cons" \in DOMAIN x => x.cons) /\ Top(x)=x.levels /\ Galerkin(x) /\ GSOK(x) /\ PreOK(x) /\ ProtoOK(x)
       /\ LET M==Method(x) IN \A k \in 1..Len(x.ap) : ApplyOK(x,M,x.ap[k])
       /\ x.calls>=Len(x.ap)
============================================================================
