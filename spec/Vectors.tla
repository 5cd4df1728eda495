------------------------------ MODULE Vectors ------------------------------
(* Life cycle of vector objects (dune/istl/bvector.hh, vbvector.hh) seen     *)
(* through the public interface.  An object is a sequence of blocks, a block *)
(* a sequence of integers.  Kind="bv": BlockVector (every block is one       *)
(* value, the block type spreads it over its components); Kind="vbv":        *)
(* VariableBlockVector.  Step(vs,a) is the complete transition function.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Kind, Objs, MaxN, MaxB, Vals, Family, Random, Depth
VARIABLES vs, hist

Undef == -9999
Dead  == [alive |-> FALSE]
Obj(b) == [alive |-> TRUE, st |-> "ok", b |-> b]
Moved == [alive |-> TRUE, st |-> "moved", b |-> <<>>]
NoInit(n) == [alive |-> TRUE, st |-> "raw", b |-> [k \in 1..n |-> <<>>]]    \* number of blocks known, sizes are not
Const(n,w,v) == [k \in 1..n |-> [j \in 1..w |-> v]]
Flat(b) == LET F[k \in 0..Len(b)] == IF k=0 THEN <<>> ELSE F[k-1] \o b[k] IN F[Len(b)]
Total(b) == Len(Flat(b))
(* rebuild the block structure of b with the flat values f *)
Unflat(b,f) == LET Off[k \in 1..Len(b)+1] == IF k=1 THEN 0 ELSE Off[k-1]+Len(b[k-1])
               IN [k \in 1..Len(b) |-> [j \in 1..Len(b[k]) |-> f[Off[k]+j]]]
Lin(a,x,c,y) == IF (a#0 /\ x=Undef) \/ (c#0 /\ y=Undef) THEN Undef ELSE a*x+c*y
MapF(b,Op(_)) == [k \in 1..Len(b) |-> [j \in 1..Len(b[k]) |-> Op(b[k][j])]]
(* flat combination  a*x + c*y in the block structure of x *)
Comb(x,a,y,c) == LET fx == Flat(x) fy == Flat(y) IN Unflat(x,[k \in 1..Len(fx) |-> Lin(a,fx[k],c,fy[k])])
Sum(s) == LET F[k \in 0..Len(s)] == IF k=0 THEN 0 ELSE F[k-1]+s[k] IN F[Len(s)]
Dot(x,y) == LET fx == Flat(x) fy == Flat(y) IN Sum([k \in 1..Len(fx) |-> fx[k]*fy[k]])
Defined(b) == \A k \in 1..Len(b) : \A j \in 1..Len(b[k]) : b[k][j]#Undef
Abs(v) == IF v<0 THEN -v ELSE v
MaxAbs(s) == LET F[k \in 0..Len(s)] == IF k=0 THEN 0 ELSE IF Abs(s[k])>F[k-1] THEN Abs(s[k]) ELSE F[k-1] IN F[Len(s)]

Err(o) == [out |-> "err", o |-> o]
Ok(o)  == [out |-> "ok",  o |-> o]
Usable(o) == o.alive /\ o.st="ok"
SetB(o,b) == [o EXCEPT !.b=b]
Step(ws,a) ==
 LET o == ws[a.o] IN
 CASE a.op="default"  -> Ok(IF Kind="bv" THEN Obj(<<>>) ELSE NoInit(0))
   [] a.op="ctor"     -> Ok(IF Kind="bv" THEN Obj(Const(a.n,1,Undef)) ELSE NoInit(a.n))
   [] a.op="ctorcap"  -> Ok(Obj(Const(a.n,1,Undef)))
   [] a.op="ctorbs"   -> Ok(Obj(Const(a.n,a.w,Undef)))
   [] a.op="list"     -> Ok(Obj([k \in 1..Len(a.vs) |-> <<a.vs[k]>>]))
   [] a.op="copyctor" -> Ok(ws[a.p])
   [] a.op="assign"   -> Ok(ws[a.p])
   [] a.op \in {"movector","moveassign"} -> Ok(ws[a.p])
   [] a.op="swap"     -> Ok(ws[a.p])
   [] a.op="destroy"  -> Ok(Dead)
   [] a.op="reserve"  -> Ok(o)
   [] a.op="resize"   -> IF Kind="vbv" THEN Ok(NoInit(a.n))
                         ELSE IF o.st="moved" THEN Ok(Obj(Const(a.n,1,Undef)))
                         ELSE Ok(SetB(o,[k \in 1..a.n |-> IF k<=Len(o.b) THEN o.b[k] ELSE <<0>>]))   \* new blocks are value-initialised
   [] a.op="resizebs" -> Ok(Obj(Const(a.n,a.w,Undef)))
   [] a.op="create"   -> IF o.st="ok" THEN Err(o) ELSE Ok(Obj([k \in 1..Len(o.b) |-> [j \in 1..a.ws[k] |-> Undef]]))
   [] a.op="write"    -> IF a.i>=Len(o.b) THEN Err(o) ELSE Ok(SetB(o,[o.b EXCEPT ![a.i+1]=[@ EXCEPT ![a.j+1]=a.v]]))
   [] a.op="fill"     -> Ok(SetB(o,MapF(o.b,LAMBDA x : a.v)))
   [] a.op="scale"    -> Ok(SetB(o,MapF(o.b,LAMBDA x : Lin(a.v,x,0,0))))
   [] a.op="div"      -> Ok(SetB(o,MapF(o.b,LAMBDA x : Lin(2,x,0,0))))          \* division by one half
   [] a.op \in {"add","sub","axpy"} ->
        LET y == ws[a.p] c == IF a.op="add" THEN 1 ELSE IF a.op="sub" THEN -1 ELSE a.v IN
        IF Total(o.b)#Total(y.b) THEN Err(o) ELSE Ok(SetB(o,Comb(o.b,1,y.b,c)))
   [] a.op="dot"      -> IF Total(o.b)#Total(ws[a.p].b) THEN Err(o) ELSE Ok(o)
   [] a.op="norms"    -> Ok(o)
   \* --- single blocks of a variable block vector
   [] a.op="bfill"    -> IF a.i>=Len(o.b) THEN Err(o) ELSE Ok(SetB(o,[o.b EXCEPT ![a.i+1]=[j \in 1..Len(@) |-> a.v]]))
   [] a.op="bscale"   -> IF a.i>=Len(o.b) THEN Err(o) ELSE Ok(SetB(o,[o.b EXCEPT ![a.i+1]=[j \in 1..Len(@) |-> Lin(a.v,@[j],0,0)]]))
   [] a.op \in {"bassign","badd","bvconv"} ->
        LET y == ws[a.p] IN
        IF a.i>=Len(o.b) \/ a.k>=Len(y.b) \/ Len(o.b[a.i+1])#Len(y.b[a.k+1]) THEN Err(o)
        ELSE Ok(SetB(o,[o.b EXCEPT ![a.i+1]=[j \in 1..Len(@) |-> IF a.op="badd" THEN Lin(1,@[j],1,y.b[a.k+1][j]) ELSE y.b[a.k+1][j]]]))
(* what the call does to the other vector involved *)
Other(ws,a) == IF a.op \in {"movector","moveassign"} THEN Moved ELSE IF a.op="swap" THEN ws[a.o] ELSE ws[a.p]
HasP(a) == "p" \in DOMAIN a
After(ws,a) == IF a.op \in {"movector","moveassign","swap"} /\ a.p#a.o
               THEN [ws EXCEPT ![a.o]=Step(ws,a).o, ![a.p]=Other(ws,a)]
               ELSE [ws EXCEPT ![a.o]=Step(ws,a).o]
Obs(o) == IF ~o.alive THEN <<"dead">> ELSE IF o.st="moved" THEN <<"moved">>
          ELSE IF o.st="raw" THEN <<"raw",Len(o.b)>> ELSE <<"ok",o.b>>
Extra(ws,a,r) == IF r.out#"ok" THEN <<>>
  ELSE IF a.op="dot" THEN <<Dot(ws[a.o].b,ws[a.p].b)>>
  ELSE IF a.op="norms" THEN LET f == Flat(ws[a.o].b) IN <<Sum([k \in 1..Len(f) |-> Abs(f[k])]),Sum([k \in 1..Len(f) |-> f[k]*f[k]]),MaxAbs(f),Len(f)>>
  ELSE <<>>

Pick(S) == IF Random /\ S#{} THEN {RandomElement(S)} ELSE S
RSeq(n,S) == IF Random THEN {TLCEval([k \in 1..n |-> RandomElement(S)])} ELSE [1..n -> S]
Limit == IF Random THEN 2000 ELSE 1
SmallO(o) == \A k \in 1..Len(o.b) : \A j \in 1..Len(o.b[k]) : o.b[k][j]=Undef \/ Abs(o.b[k][j])<=Limit
Alive == {k \in Objs : vs[k].alive}
Usables == {k \in Objs : Usable(vs[k])}
Menu(i) ==
 LET o == vs[i] IN
 IF ~o.alive THEN
   {[op|->"default",o|->i]}
   \cup {[op|->"ctor",o|->i,n|->n] : n \in Pick(0..MaxN)}
   \cup (IF Kind="bv" THEN {[op|->"ctorcap",o|->i,n|->n,c|->c] : n \in Pick(0..MaxN), c \in Pick(0..MaxN+1)}
                     \cup UNION {{[op|->"list",o|->i,vs|->s] : s \in RSeq(n,Vals)} : n \in Pick(0..MaxN)}
         ELSE {[op|->"ctorbs",o|->i,n|->n,w|->w] : n \in Pick(0..MaxN), w \in Pick(0..MaxB)})
   \cup {[op|->"copyctor",o|->i,p|->k] : k \in Pick({k \in Alive : vs[k].st#"moved"})}
   \cup {[op|->"movector",o|->i,p|->k] : k \in Pick({k \in Alive : vs[k].st#"moved"})}
 ELSE
   {[op|->"destroy",o|->i]}
   \cup {[op|->"assign",o|->i,p|->k] : k \in Pick({k \in Alive : vs[k].st#"moved"})}
   \cup {[op|->"moveassign",o|->i,p|->k] : k \in Pick({k \in Alive : vs[k].st#"moved" /\ k#i})}
   \cup {[op|->"swap",o|->i,p|->k] : k \in Pick({k \in Alive : k#i})}
   \cup (IF Kind="bv" \/ o.st#"moved" THEN {[op|->"resize",o|->i,n|->n] : n \in Pick(0..MaxN)} ELSE {})
   \cup (IF Kind="vbv" /\ o.st#"moved" THEN {[op|->"resizebs",o|->i,n|->n,w|->w] : n \in Pick(0..MaxN), w \in Pick(0..MaxB)} ELSE {})
   \cup (IF Kind="vbv" /\ o.st#"moved" THEN {[op|->"create",o|->i,ws|->s] : s \in RSeq(Len(o.b),0..MaxB)} ELSE {})
   \cup (IF Kind="bv" THEN {[op|->"reserve",o|->i,n|->n] : n \in Pick(0..MaxN+2)} ELSE {})
   \cup (IF o.st#"ok" THEN {} ELSE
      {[op|->"fill",o|->i,v|->v] : v \in Pick(Vals)}
      \cup {[op|->"write",o|->i,i|->b-1,j|->0,v|->v] : b \in Pick({b \in 1..Len(o.b) : Len(o.b[b])>0} \cup {Len(o.b)+1}), v \in Pick(Vals)}
      \cup (IF Random THEN UNION {{[op|->"write",o|->i,i|->b-1,j|->j-1,v|->v] : j \in Pick(1..Len(o.b[b])), v \in Pick(Vals)} : b \in Pick({b \in 1..Len(o.b) : Len(o.b[b])>0})} ELSE {})
      \cup (IF SmallO(o) THEN {[op|->"scale",o|->i,v|->v] : v \in Pick(Vals)} \cup (IF Random THEN {[op|->"div",o|->i]} ELSE {}) ELSE {})
      \cup UNION {{[op|->"add",o|->i,p|->k],[op|->"sub",o|->i,p|->k]} \cup {[op|->"axpy",o|->i,p|->k,v|->v] : v \in Pick(Vals)} :
                   k \in Pick({k \in Usables : SmallO(vs[k]) /\ SmallO(o)})}
      \cup {[op|->"dot",o|->i,p|->k] : k \in Pick({k \in Usables : Defined(o.b) /\ Defined(vs[k].b)})}
      \cup (IF Defined(o.b) THEN {[op|->"norms",o|->i]} ELSE {})
      \cup (IF Kind="vbv" THEN
            {[op|->"bfill",o|->i,i|->b,v|->v] : b \in Pick(0..Len(o.b)), v \in Pick(Vals)}
            \cup (IF SmallO(o) THEN {[op|->"bscale",o|->i,i|->b,v|->v] : b \in Pick(0..Len(o.b)), v \in Pick(Vals)} ELSE {})
            \cup UNION {{[op|->q,o|->i,p|->k,i|->b,k|->c] : q \in {"bassign","badd","bvconv"}, b \in Pick(0..Len(o.b)), c \in Pick(0..Len(vs[k].b))}
                        : k \in Pick({k \in Usables : SmallO(vs[k]) /\ SmallO(o)})}
            ELSE {}))
Call(a) == LET r == Step(vs,a) IN
  /\ vs' = After(vs,a)
  /\ hist' = Append(hist,[a |-> a, out |-> r.out, extra |-> Extra(vs,a,r), obs |-> [k \in Objs |-> Obs(vs'[k])]])
Init == vs = [k \in Objs |-> Dead] /\ hist = <<>>
Prefer(M) == LET G == {a \in M : a.op \notin {"destroy","default","movector","moveassign"} /\ Step(vs,a).out="ok"}
             IN IF G#{} /\ RandomElement(1..100)<=80 THEN G ELSE M
\* (the test of hist keeps TLC from drawing the object once and for all)
Next == \E i \in (IF Len(hist)>=0 THEN Pick(Objs) ELSE {}) : \E a \in (IF Random THEN Pick(Prefer(Menu(i))) ELSE Menu(i)) : Call(a)
Spec == Init /\ [][Next]_<<vs,hist>>

(* ---- properties of the specification ------------------------------------- *)
TypeOK == \A k \in Objs : vs[k].alive => (vs[k].st \in {"ok","raw","moved"} /\ Len(vs[k].b)<=MaxN
                                           /\ (Kind="bv" => \A n \in 1..Len(vs[k].b) : Len(vs[k].b[n])=1))
LastCall == hist'[Len(hist')]
Isolation == [][\A k \in Objs : (hist'#hist /\ k#LastCall.a.o /\ ~(HasP(LastCall.a) /\ LastCall.a.p=k /\ LastCall.a.op \in {"swap","movector","moveassign"})) => vs'[k]=vs[k]]_<<vs,hist>>
RefusalHarmless == [][(hist'#hist /\ LastCall.out="err") => vs'=vs]_<<vs,hist>>
SurvivorsKeep == [][(hist'#hist /\ LastCall.a.op="resize" /\ Kind="bv" /\ vs[LastCall.a.o].st="ok") =>
                     \A n \in 1..Len(vs[LastCall.a.o].b) : n<=LastCall.a.n => vs'[LastCall.a.o].b[n]=vs[LastCall.a.o].b[n]]_<<vs,hist>>
ValsA == {1,2,3,-4,5}
ValsB == {1}
View == vs
EmitTransitions == LET h == hist'[Len(hist')] IN PrintT(<<"TR",ToJson([s |-> TLCFP(vs), d |-> TLCFP(vs'), a |-> h.a, out |-> h.out, extra |-> h.extra, obs |-> h.obs])>>)
EmitAtDepth == Len(hist)#Depth \/ PrintT(<<"BEH",ToJson(hist)>>)
SmallVals == \A k \in Objs : vs[k].alive => SmallO(vs[k])
=============================================================================
