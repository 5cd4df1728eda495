------------------------------- MODULE AmgAgg -------------------------------
(* Coarsening of the algebraic multigrid method.                              *)
(*  (1) machine: aggregation of a graph with strong (depends/influences)      *)
(*      edges, isolated and excluded vertices, as a nondeterministic process: *)
(*      seeds are taken in ascending order, an aggregate may add any eligible *)
(*      vertex, has to grow to the minimal size where it can, must not exceed *)
(*      the maximal size, and a lone vertex joins a strong neighbour.         *)
(*      Invariants: the result is a partition into consecutively numbered,    *)
(*      connected aggregates of legal size plus isolated vertices.            *)
(*  (2) judge of recorded aggregations (strong edges recomputed from the      *)
(*      matrix; the recorded map has to be one the process can reach), of     *)
(*      recorded hierarchies (Galerkin products, stopping rules, composed     *)
(*      numbering) and of recorded transfers.                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils
CONSTANTS MaxN, Deep
----
\* g: [n, edges (set of <<i,j>>), dep, inf (sets of edges), iso, excl (sets), min, max, con, skip]; vertices 0..n-1
U == -2
Iso == -1
V(g) == 0..g.n-1
Start(g) == [map |-> [v \in V(g) |-> U], core |-> {}, seed |-> 0, id |-> 0, niso |-> 0, one |-> 0]
Free(g,s) == {v \in V(g) : s.map[v]=U}
MinI(a,b) == IF a<b THEN a ELSE b
Elig(g,s) == IF s.seed \in g.iso THEN {v \in Free(g,s) : \E t \in s.core : <<t,v>> \in g.edges}
             ELSE {v \in Free(g,s) : v \notin g.iso /\ (\E t \in s.core : <<v,t>> \in g.dep) /\ \E t \in s.core : <<t,v>> \in g.edges}
MayGrow(g,s) == Cardinality(s.core) < (IF s.seed \in g.iso THEN g.min ELSE g.max)
MayClose(g,s) == \/ Cardinality(s.core) >= (IF s.seed \in g.iso THEN g.min ELSE MinI(g.min,g.max))
                 \/ Elig(g,s) = {} \/ (s.seed \in g.iso /\ g.con < g.n+3)
                 \/ (s.seed \in g.iso /\ \A v \in Elig(g,s) : \A p \in g.edges : p[1] # v)   \* no neighbours: no measure to compare
Join(g,s) == {t \in V(g)\{s.seed} : s.map[t]>=0 /\ t \notin g.iso /\ <<s.seed,t>> \in g.dep \cup g.inf}
Closed(g,s) == LET lone==Cardinality(s.core)=1 /\ g.max>1 IN
   IF lone /\ s.seed \notin g.iso /\ Join(g,s) # {}
   THEN {[s EXCEPT !.map=[@ EXCEPT ![s.seed]=s.map[t]], !.core={}] : t \in Join(g,s)}
   ELSE {[s EXCEPT !.core={}, !.id=@+1, !.niso=@+(IF s.seed \in g.iso THEN 1 ELSE 0), !.one=@+(IF lone THEN 1 ELSE 0)]}
Succ(g,s) == IF s.core = {} THEN
     (IF Free(g,s) = {} THEN {} ELSE LET v==Min(Free(g,s)) IN
        IF v \in g.excl \/ (v \in g.iso /\ g.skip) THEN {[s EXCEPT !.map=[@ EXCEPT ![v]=Iso]]}
        ELSE {[s EXCEPT !.map=[@ EXCEPT ![v]=s.id], !.core={v}, !.seed=v]})
   ELSE (IF MayGrow(g,s) THEN {[s EXCEPT !.map=[@ EXCEPT ![v]=s.id], !.core=@ \cup {v}] : v \in Elig(g,s)} ELSE {})
        \cup (IF MayClose(g,s) THEN Closed(g,s) ELSE {})
Final(g,s) == s.core = {} /\ Free(g,s) = {}
----
(* (1) *)
VARIABLES g, s, chunk, i
mv == <<g,s,chunk,i>>
Pairs(n) == {p \in (0..n-1) \X (0..n-1) : p[1] # p[2]}
Und(n) == {p \in Pairs(n) : p[1]<p[2]}
Sym(E) == E \cup {<<p[2],p[1]>> : p \in E}
MInit == \E n \in 1..MaxN : \E E \in SUBSET Und(n) :
   \* every edge is strong in both directions, one direction or weak; flags as the criteria set them
   \E D \in SUBSET Sym(E) : \E I \in SUBSET (0..n-1) : \E X \in (IF Deep THEN {x \in SUBSET (0..n-1) : Cardinality(x)<=1} ELSE {{}} \cup {{0}}) :
   \E mm \in (IF Deep THEN {<<1,1>>,<<1,2>>,<<2,2>>,<<2,3>>,<<3,3>>,<<3,2>>} ELSE {<<1,2>>,<<2,3>>,<<3,2>>}) : \E sk \in BOOLEAN :
     /\ (\A d \in D : d[1] \notin I)
     /\ g = [n|->n,edges|->Sym(E),dep|->D,inf|->{<<p[2],p[1]>> : p \in D},iso|->I,excl|->X,min|->mm[1],max|->mm[2],con|->15,skip|->sk]
     /\ s = Start(g) /\ chunk=0 /\ i=0
MNext == s' \in Succ(g,s) /\ UNCHANGED <<g,chunk,i>>
Cls(q,a) == {v \in V(g) : q.map[v]=a}
Comp(E,W) == FoldLeft(LAMBDA R,k : TLCEval(R \cup {v \in W : \E t \in R : <<t,v>> \in E \/ <<v,t>> \in E}),{Min(W)},[k \in 1..Cardinality(W) |-> k])
Numbered == {s.map[v] : v \in V(g)} \ {U,Iso} = 0..s.id-1 \cup (IF s.core = {} THEN {} ELSE {s.id})
Connected == \A a \in {s.map[v] : v \in V(g)} \ {U,Iso} : Comp(g.edges,Cls(s,a))=Cls(s,a)
OnlyIsolated == \A v \in V(g) : s.map[v]=Iso => v \in g.excl \/ (v \in g.iso /\ g.skip)
\* what exceeds the maximal size are vertices which could not form an aggregate of their own
Sizes == \A a \in {s.map[v] : v \in V(g)} \ {U,Iso} : LET w=={v \in Cls(s,a) : v \notin g.iso} IN
   Cardinality(w)>g.max => \E v \in w : v # Min(w) /\ \E t \in Cls(s,a) : <<v,t>> \in g.dep \cup g.inf
Progress == Final(g,s) \/ Succ(g,s) # {}
IsoApart == g.skip => \A a \in {s.map[v] : v \in V(g)} \ {U,Iso} : Cls(s,a) \cap g.iso = {}
----
(* (2) *)
REC == ndJsonDeserialize(IOEnv.REC)
NREC == atoi(IOEnv.NREC)
CHUNKS == atoi(IOEnv.CHUNKS)
JInit == /\ chunk \in 1..CHUNKS /\ i = (chunk-1)*((NREC+CHUNKS-1) \div CHUNKS) + 1 /\ g=0 /\ s=0
JNext == /\ i < chunk*((NREC+CHUNKS-1) \div CHUNKS) /\ i<NREC /\ i'=i+1 /\ UNCHANGED <<g,s,chunk>>
\* ---- strong edges of a matrix
Abs(a) == IF a<0 THEN -a ELSE a
Norm(x,e) == LET b==x.bs IN CASE x.norm="diag0" -> e[3] [] x.norm="diag1" -> e[3+b+1] [] x.norm="one" -> 1
     [] x.norm="rowsum" -> Max({FoldLeft(LAMBDA acc,k : acc+Abs(e[2+(r-1)*b+k]),0,[k \in 1..b |-> k]) : r \in 1..b})
NullBlock(e) == \A k \in 3..Len(e) : e[k]=0
Signed(x) == x.norm \in {"diag0","diag1"}
BIG == 1000000
Strong(x) == LET n==x.n ent==TLCEval({<<x.a[k][1],x.a[k][2]>> : k \in 1..Len(x.a)})
     val==TLCEval([p \in ent |-> Norm(x,x.a[CHOOSE k \in 1..Len(x.a) : x.a[k][1]=p[1] /\ x.a[k][2]=p[2]])])
     off(r)=={p \in ent : p[1]=r /\ p[2] # r}
     d==TLCEval([r \in 0..n-1 |-> val[<<r,r>>]])
     sg(a)==IF a<0 THEN -1 ELSE 1
     \* sixteen times e_ij e_ji/(d_i d_j)
     sc(p,q)==val[p]*val[q]*sg(d[p[1]])*sg(d[p[2]])*(16 \div (Abs(d[p[1]])*Abs(d[p[2]])))
     rev(p)==<<p[2],p[1]>>
     elig(p)==CASE x.crit="sym" -> rev(p) \in ent /\ (~Signed(x) \/ val[p]<0 \/ val[rev(p)]<0)
                [] x.crit="symmat" -> ~Signed(x) \/ val[p]<0
                [] x.crit="unsym" -> TRUE
     w(p)==CASE x.crit="sym" -> sc(p,rev(p)) [] x.crit="symmat" -> sc(p,p) [] x.crit="unsym" -> -16*val[p]
     mx==TLCEval([r \in 0..n-1 |-> Max({-BIG} \cup {w(p) : p \in {q \in off(r) : elig(q)}})])
     iso==TLCEval({r \in 0..n-1 : mx[r]=-BIG \/ mx[r] < (IF x.crit="unsym" THEN x.beta*d[r] ELSE x.beta)})
     strong==TLCEval({p \in ent : p[1] # p[2] /\ p[1] \notin iso /\
          (CASE x.crit="unsym" -> 4*w(p) >= x.alpha*mx[p[1]]
             [] x.crit="sym" -> elig(p) /\ 4*w(p) > x.alpha*mx[p[1]]
             [] x.crit="symmat" -> 4*(IF elig(p) THEN w(p) ELSE 0) > x.alpha*mx[p[1]])})
     back=={rev(p) : p \in strong} \cap ent
     both==strong \cup back IN
  [iso |-> iso, edges |-> {p \in ent : p[1] # p[2]},
   dep |-> IF x.crit="sym" THEN both ELSE strong,
   inf |-> CASE x.crit="sym" -> both [] x.crit="symmat" -> strong [] x.crit="unsym" -> back,
   excl |-> IF x.finest THEN {r \in 0..n-1 : \A k \in 1..Len(x.a) : x.a[k][1]=r /\ x.a[k][2] # r => NullBlock(x.a[k])} ELSE {}]
FlagsOK(x,S) == /\ {<<f[1],f[2]>> : f \in ToSet(x.fl)}=S.edges
   /\ \A k \in 1..Len(x.fl) : LET f==x.fl[k] p==<<f[1],f[2]>> dp==p \in S.dep nf==p \in S.inf IN
        /\ (f[3]=1) = dp /\ (f[4]=1) = nf /\ (f[5]=1) = (dp /\ ~nf) /\ (f[6]=1) = (dp /\ nf)
   /\ {r \in 0..x.n-1 : x.iso[r+1]=1}=S.iso /\ {r \in 0..x.n-1 : x.excl[r+1]=1}=S.excl
\* can the process reach the map?
Walk(h,m) == LET ok(q)==\A v \in DOMAIN q.map : q.map[v]=U \/ q.map[v]=m[v+1] \/ (v=q.seed /\ q.core={v})
                 step(F)=={q \in UNION {Succ(h,q) : q \in F} : ok(q)}
                 one(o)==LET nx==TLCEval(step(o.open)) IN TLCEval([open |-> {q \in nx : ~Final(h,q)}, done |-> o.done \cup {q \in nx : Final(h,q)}])
                 R==FoldLeft(LAMBDA o,k : one(o),[open |-> {Start(h)}, done |-> {}],[k \in 1..3*h.n+1 |-> k])
             IN {q \in R.done : \A v \in DOMAIN q.map : q.map[v]=m[v+1]}
AggOK(x) == LET S==TLCEval(Strong(x))
     h==TLCEval([n|->x.n,edges|->S.edges,dep|->S.dep,inf|->S.inf,iso|->S.iso,excl|->S.excl,min|->x.min,max|->x.max,con|->x.con,skip|->x.skip])
     fin==Walk(h,x.map) IN
  /\ x.what="ok" /\ FlagsOK(x,S) /\ Len(x.map)=x.n
  /\ \E q \in fin : x.tup = <<q.id,q.niso,q.one,Cardinality({v \in 1..x.n : x.map[v]=Iso})>>
\* ---- hierarchies
EntV(L,bs) == [p \in {<<L.a[k][1],L.a[k][2]>> : k \in 1..Len(L.a)} |-> LET e==L.a[CHOOSE k \in 1..Len(L.a) : L.a[k][1]=p[1] /\ L.a[k][2]=p[2]] IN [q \in 1..bs*bs |-> e[2+q]]]
GalOK(F,C,bs) == LET f==TLCEval(EntV(F,bs)) c==TLCEval(EntV(C,bs)) m==F.map
     img(p)==<<m[p[1]+1],m[p[2]+1]>>
     act==TLCEval({p \in DOMAIN f : m[p[1]+1]>=0 /\ m[p[2]+1]>=0}) IN
   /\ Len(m)=F.n /\ {m[k] : k \in 1..Len(m)} \ {Iso}=0..C.n-1 /\ \A k \in 1..Len(m) : m[k]>=-1
   /\ {img(p) : p \in act} \subseteq DOMAIN c
   /\ \A P \in DOMAIN c : \A q \in 1..bs*bs : c[P][q]=MapThenSumSet(LAMBDA p : f[p][q],{p \in act : img(p)=P})
   /\ \A a \in 0..C.n-1 : LET W=={v \in 0..F.n-1 : m[v+1]=a} IN Comp(DOMAIN f,W)=W
RECURSIVE Down(_,_,_)
Down(x,l,v) == IF v=Iso THEN Iso ELSE IF l=x.levels THEN v ELSE Down(x,l+1,x.lev[l].map[v+1])
HierOK(x) == LET L==x.levels n(l)==x.lev[l].n IN
  /\ Len(x.lev)=L /\ L<=x.maxl+1 /\ x.maxlevels=L /\ x.has /\ x.built /\ n(1)=x.n
  /\ \A l \in 1..L-1 : n(l)>x.target /\ n(l+1)>0 /\ 8*n(l)>=x.rate*n(l+1) /\ GalOK(x.lev[l],x.lev[l+1],x.bs)
  /\ L<=x.maxl => n(L)<=x.target \/ x.next[1]=0 \/ 8*n(L)<x.rate*x.next[1]
  /\ x.sizes = <<L>> \o [l \in 1..L |-> n(l)]
  /\ Len(x.coarsest)=x.n
  /\ \A v,w \in 0..x.n-1 : LET a==Down(x,1,v) b==Down(x,1,w) IN a # Iso /\ b # Iso => ((x.coarsest[v+1]=x.coarsest[w+1]) = (a=b))
  /\ \A v \in 0..x.n-1 : x.coarsest[v+1] \in 0..(IF n(L)=0 THEN 1 ELSE n(L))-1
TrOK(x) == LET b==x.bs bl(k)==((k-1)\div b)+1 c(k)==((k-1)%b)+1 IN
  IF x.up THEN x.f1=[k \in 1..Len(x.f0) |-> x.f0[k]+(IF x.map[bl(k)]<0 THEN 0 ELSE x.damp*x.c0[x.map[bl(k)]*b+c(k)])]
  ELSE /\ x.f1=x.f0 /\ x.c1=[k \in 1..Len(x.c0) |-> MapThenSumSet(LAMBDA j : x.f0[j],{j \in 1..Len(x.f0) : x.map[bl(j)]=bl(k)-1 /\ c(j)=c(k)})]
\* ---- parameters: what a history of calls leaves behind (floating point values in units of 1/3000000)
Params0 == [alpha |-> 1000000, beta |-> 30, rate |-> 3600000, damp |-> 4800000, dist |-> 2, min |-> 4, max |-> 6, con |-> 15, skip |-> 0, maxl |-> 100,
            target |-> 1000, acc |-> 2, fixed |-> 0, debug |-> 2, pre |-> 2, post |-> 2, gamma |-> 1, add |-> 0]
CtorNames == <<"maxl","target","rate","damp","acc","fixed">>
ReadNames == <<"alpha","beta","rate","damp","dist","min","max","con","skip","maxl","target","acc","fixed","debug","pre","post","gamma","add">>
\* cubes of the given diameter; the distance of their corners, one direction longer for anisotropic problems
Cube(p,dim,diam,more) == LET size==FoldLeft(LAMBDA z,k : z*diam,1,[k \in 1..dim |-> k]) IN
   [p EXCEPT !.dist=(dim+1)*(diam-1)+more, !.min=size, !.max=(3*size) \div 2]
ApplyCall(p,k) == CASE k.f="iso" -> Cube(p,k.v[1],k.v[2],0) [] k.f="aniso" -> Cube(p,k.v[1],k.v[2],k.v[1]-1)
   [] k.f="iso2" -> Cube(p,k.v[1],2,0) [] k.f="aniso2" -> Cube(p,k.v[1],2,k.v[1]-1)
   [] k.f="accb" -> [p EXCEPT !.acc=2*k.v[1]] [] OTHER -> [p EXCEPT ![k.f]=k.v[1]]
ReadBack(p) == [k \in 1..Len(ReadNames) |-> p[ReadNames[k]]]
ParOK(x) == LET c==TLCEval([n \in DOMAIN Params0 |-> IF \E k \in 1..Len(x.ctor) : CtorNames[k]=n THEN x.ctor[CHOOSE k \in 1..Len(x.ctor) : CtorNames[k]=n] ELSE Params0[n]])
     m==TLCEval(FoldLeft(ApplyCall,c,x.pre)) IN
   x.mid=ReadBack(m) /\ x.got=ReadBack(FoldLeft(ApplyCall,m,x.calls))
\* ---- the container of the levels, from the finest to the coarsest: <<value, redistributed value or 0>>
ContApply(c,k) == LET v==k.v[1] IN CASE k.f="coarser" -> Append(c,<<v,0>>) [] k.f="finer" -> << <<v,0>> >> \o c
   [] k.f="red" -> [c EXCEPT ![Len(c)][2]=v] [] k.f="set" -> [c EXCEPT ![k.v[2]][1]=v] [] k.f="redat" -> [c EXCEPT ![k.v[2]][2]=v]
ContSeen(c) == << <<Len(c)>>, [q \in 1..Len(c) |-> c[q][1]], [q \in 1..Len(c) |-> c[Len(c)+1-q][1]], [q \in 1..Len(c) |-> c[q][2]] >>
ContOK(x) == LET m==TLCEval(FoldLeft(ContApply,IF x.first>0 THEN << <<x.first,0>> >> ELSE << >>,x.pre)) IN
   x.copy=ContSeen(m) /\ x.orig=ContSeen(FoldLeft(ContApply,m,x.calls))
RecordOK == (i<=NREC /\ i<=chunk*((NREC+CHUNKS-1) \div CHUNKS)) =>
  LET x==REC[i] IN CASE x.kind="agg" -> AggOK(x) [] x.kind="hier" -> HierOK(x) [] x.kind="tr" -> TrOK(x) [] x.kind="par" -> ParOK(x) [] x.kind="cont" -> ContOK(x)
============================================================================
