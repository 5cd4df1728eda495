----------------------------- MODULE IndexSets -----------------------------
(* Life cycle of MatrixIndexSet objects (dune/istl/matrixindexset.hh): an    *)
(* object is a set of positions.  The storage threshold mv (vector/set       *)
(* switch) is a parameter of the object that must never be observable.       *)
(* "paradd" performs the additions of several rows concurrently: the         *)
(* threads of the specification interleave freely (see module              *)
(* IndexSetThreads), the result is the union.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, SequencesExt
CONSTANTS Objs, MaxN, MaxM, MVs, Fams, Big, Random, Depth
VARIABLES s, hist
Dead == [alive |-> FALSE]
Obj(n,m,mv) == [alive |-> TRUE, moved |-> FALSE, n |-> n, m |-> m, mv |-> mv, P |-> {}]
Row(o,r) == {p[2] : p \in {q \in o.P : q[1]=r}}
Shift(P,a,b) == {<<p[1]+a,p[2]+b>> : p \in P}
ManyCols(o,a) == {(a.start+a.stride*k) % o.m : k \in 0..a.cnt-1}
Ok(o) == [out |-> "ok", o |-> o]
Live == {k \in Objs : s[k].alive /\ ~s[k].moved}
Step(w,a) == LET o == w[a.o] IN
  CASE a.op="default"  -> Ok(Obj(0,0,a.mv))
    [] a.op="ctor"     -> Ok(Obj(a.n,a.m,a.mv))
    [] a.op="destroy"  -> Ok(Dead)
    [] a.op="add"      -> Ok([o EXCEPT !.P = @ \cup {<<a.i,a.j>>}])
    [] a.op="addmany"  -> Ok([o EXCEPT !.P = @ \cup {<<a.i,c>> : c \in ManyCols(o,a)}])
    [] a.op="paradd"   -> Ok([o EXCEPT !.P = @ \cup UNION {{<<r-1,a.cols[r][k]>> : k \in DOMAIN a.cols[r]} : r \in DOMAIN a.cols}])
    [] a.op="resize"   -> Ok([o EXCEPT !.n = a.n, !.m = a.m, !.P = {p \in @ : p[1]<a.n}])
    [] a.op="import"   -> Ok([o EXCEPT !.P = @ \cup Shift(w[a.p].P,a.ro,a.co)])
    [] a.op="importpat"-> Ok([o EXCEPT !.P = @ \cup Shift(a.pat,a.ro,a.co)])
    [] a.op="export"   -> Ok(o)
    [] a.op \in {"copyctor","assign"} -> Ok(w[a.p])
    [] a.op \in {"movector","moveassign"} -> Ok(w[a.p])
After(w,a) == IF a.op \in {"movector","moveassign"} THEN [w EXCEPT ![a.o]=w[a.p], ![a.p]=[@ EXCEPT !.moved=TRUE,!.P={}]] ELSE [w EXCEPT ![a.o]=Step(w,a).o]
Sorted(S) == SelectSeq([k \in 1..MaxM |-> k-1],LAMBDA x : x \in S)
Rows(o) == [r \in 1..o.n |-> Sorted(Row(o,r-1))]
Obs(o) == IF ~o.alive THEN <<"dead">> ELSE IF o.moved THEN <<"moved">>
          ELSE <<"ok",o.n,o.m,Cardinality(o.P),Rows(o)>>
Extra(a,o) == IF a.op="export" THEN <<o.n,o.m,Cardinality(o.P),Rows(o)>> ELSE <<>>
Pick(S) == IF Random /\ S#{} THEN {RandomElement(S)} ELSE S
Fits(o,n,m) == \A p \in o.P : p[1]>=n \/ p[2]<m
Targets == {"fresh","sized","random","rowwise","again"}
Menu(k) == LET o == s[k] IN
  IF ~o.alive THEN
     {[op|->"default",o|->k,mv|->v] : v \in Pick(MVs)}
     \cup {[op|->"ctor",o|->k,n|->n,m|->m,mv|->v] : n \in Pick(0..MaxN), m \in Pick(IF Big THEN {MaxM} ELSE 0..MaxM), v \in Pick(MVs)}
     \cup {[op|->q,o|->k,p|->p] : q \in Pick({"copyctor","movector"} \cap Fams), p \in Pick(Live)}
  ELSE {[op|->"destroy",o|->k]} \cup {[op|->q,o|->k,p|->p] : q \in Pick({"assign","moveassign"} \cap Fams), p \in Pick(Live\{k})}
   \cup IF o.moved THEN {} ELSE
     (IF o.n>0 /\ o.m>0 THEN {[op|->"add",o|->k,i|->i,j|->j] : i \in Pick(0..o.n-1), j \in Pick(0..o.m-1)} ELSE {})
     \cup {[op|->"resize",o|->k,n|->d[1],m|->d[2]] : d \in Pick({d \in (0..MaxN) \X (IF Big THEN {MaxM} ELSE 0..MaxM) : Fits(o,d[1],d[2])})}
     \cup (IF "import" \in Fams THEN UNION {{[op|->"import",o|->k,p|->p,ro|->x[1],co|->x[2]] : x \in Pick((0..o.n-s[p].n) \X (0..o.m-s[p].m))} :
                 p \in Pick({p \in Live : s[p].n<=o.n /\ s[p].m<=o.m})} ELSE {})
     \cup (IF "importpat" \in Fams /\ o.n>0 /\ o.m>0 THEN {[op|->"importpat",o|->k,pat|->pt,ro|->0,co|->0] : pt \in {TLCEval({p \in (0..o.n-1) \X (0..o.m-1) : RandomElement(1..100)<=40})}} ELSE {})
     \cup {[op|->"export",o|->k,t|->t] : t \in Pick(Targets)}
     \cup (IF "paradd" \in Fams /\ o.m>0 THEN {[op|->"paradd",o|->k,cols|->TLCEval([r \in 1..o.n |-> [x \in 1..RandomElement(0..5) |-> RandomElement(0..o.m-1)]])]} ELSE {})
     \cup (IF Big /\ o.n>0 THEN {[op|->"addmany",o|->k,i|->i,start|->a,stride|->b,cnt|->c] : i \in Pick(0..o.n-1), a \in Pick(0..MaxM-1), b \in Pick({1,7,11,MaxM-1,MaxM-13}), c \in Pick({1,(MaxM*2) \div 5,(MaxM*7) \div 10,MaxM-3,MaxM+7})} ELSE {})
Call(a) == LET r == Step(s,a) IN
  /\ s'=After(s,a)
  /\ hist'=Append(hist,[a |-> a, out |-> r.out, extra |-> Extra(a,r.o), obs |-> [k \in Objs |-> Obs(s'[k])]])
Init == s=[k \in Objs |-> Dead] /\ hist = <<>>
Prefer(M) == LET G == {a \in M : a.op \notin {"destroy","default","resize","moveassign","movector","copyctor"}} H == {a \in G : a.op \in {"add","addmany"}} IN
             IF Big /\ H#{} /\ RandomElement(1..100)<=70 THEN H ELSE IF G#{} /\ RandomElement(1..100)<=85 THEN G ELSE M
\* (the test of hist keeps TLC from drawing the object once and for all)
Next == \E k \in (IF Len(hist)>=0 THEN Pick(Objs) ELSE {}) : \E a \in (IF Random THEN Pick(Prefer(Menu(k))) ELSE Menu(k)) : Call(a)
TypeOK == \A k \in Objs : (s[k].alive /\ ~s[k].moved) => \A p \in s[k].P : p[1] \in 0..s[k].n-1 /\ p[2] \in 0..s[k].m-1
LastCall == hist'[Len(hist')]
OnlyGrows == [][\A k \in Objs : (hist'#hist /\ s[k].alive /\ s'[k].alive /\ LastCall.a.op \in {"add","addmany","paradd","import","importpat","export"}) => s[k].P \subseteq s'[k].P]_<<s,hist>>
View == s
EmitTransitions == LET h == hist'[Len(hist')] IN PrintT(<<"TR",ToJson([s |-> TLCFP(s), d |-> TLCFP(s'), a |-> h.a, out |-> h.out, extra |-> h.extra, obs |-> h.obs])>>)
EmitAtDepth == Len(hist)#Depth \/ PrintT(<<"BEH",ToJson(hist)>>)
=============================================================================
