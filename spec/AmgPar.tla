------------------------------- MODULE AmgPar -------------------------------
(* Aggregation AMG on a distributed matrix.
   (1) The model: N unknowns with owners and copies on the processes.  Every process aggregates
   the unknowns it owns, publishes the aggregate of every owned unknown to the copies of it, and
   multiplies its own rows.  TLC explores every ownership, every aggregation and every order of
   these steps; in the end the rows of the coarse matrix are the rows of the Galerkin product of
   the global matrix, every coarse unknown has one owner and every copy knows the owner's number.
   (2) The judge: hierarchies recorded on 1..4 processes.  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Json, TLC, TLCExt, IOUtils
CONSTANTS N, Procs
VARIABLES own,agg,known,rows,pc,chunk,i
vars == <<own,agg,known,rows,pc,chunk,i>>
----
(* (1) matrix entries of the model: a path with distinguishable values *)
Nodes == 0..N-1
Adj(u,v) == u=v \/ u-v=1 \/ v-u=1
Val(u,v) == IF u=v THEN 7+u ELSE IF Adj(u,v) THEN -(1+u+2*v) ELSE 0
Local(p,v) == own[v]=p
Seen(p,v) == \E u \in Nodes : own[u]=p /\ Adj(u,v)
MInit == /\ own \in [Nodes -> Procs] /\ agg=[v \in Nodes |-> <<0,-9>>] /\ known=[p \in Procs |-> [v \in Nodes |-> <<0,-9>>]] /\ rows=[p \in Procs |-> << >>]
         /\ pc=[p \in Procs |-> "agg"] /\ chunk=0 /\ i=0
\* the aggregate of an owned unknown is named after one of its members; -1 marks isolated unknowns
Aggregate(p) == /\ pc[p]="agg" /\ \E f \in [{v \in Nodes : own[v]=p} -> {v \in Nodes : own[v]=p} \cup {-1}] :
                     /\ \A v \in DOMAIN f : IF f[v]=-1 THEN TRUE ELSE f[f[v]]=f[v]
                     /\ agg'=[v \in Nodes |-> IF own[v]=p THEN <<p,f[v]>> ELSE agg[v]]
                     /\ known'=[known EXCEPT ![p]=[v \in Nodes |-> IF own[v]=p THEN <<p,f[v]>> ELSE known[p][v]]]
                /\ pc'=[pc EXCEPT ![p]="pub"] /\ UNCHANGED <<own,rows,chunk,i>>
Publish(p) == /\ pc[p]="pub" /\ known'=[q \in Procs |-> [v \in Nodes |-> IF own[v]=p /\ Seen(q,v) THEN agg[v] ELSE known[q][v]]]
              /\ pc'=[pc EXCEPT ![p]="mul"] /\ UNCHANGED <<own,agg,rows,chunk,i>>
Iso2(c) == c[2]=-1
Multiply(p) == /\ pc[p]="mul" /\ \A q \in Procs : pc[q] \notin {"agg","pub"}
               /\ rows'=[rows EXCEPT ![p]=[c \in {known[p][v] : v \in {v \in Nodes : own[v]=p}} \ {<<p,-1>>} |->
                     [d \in {known[p][v] : v \in {v \in Nodes : Seen(p,v)}} |->
                        MapThenSumSet(LAMBDA e : Val(e[1],e[2]),{e \in Nodes \X Nodes : own[e[1]]=p /\ known[p][e[1]]=c /\ Adj(e[1],e[2]) /\ known[p][e[2]]=d /\ ~Iso2(d)})]]]
               /\ pc'=[pc EXCEPT ![p]="done"] /\ UNCHANGED <<own,agg,known,chunk,i>>
MNext == \E p \in Procs : Aggregate(p) \/ Publish(p) \/ Multiply(p)
Global(c,d) == MapThenSumSet(LAMBDA e : Val(e[1],e[2]),{e \in Nodes \X Nodes : agg[e[1]]=c /\ agg[e[2]]=d})
CopiesAgree == (\A p \in Procs : pc[p] \in {"mul","done"}) => \A p \in Procs : \A v \in Nodes : Seen(p,v) => known[p][v]=agg[v]
GalerkinRows == (\A p \in Procs : pc[p]="done") => \A c \in {agg[v] : v \in Nodes} : ~Iso2(c) =>
   /\ {p \in Procs : c \in DOMAIN rows[p]}={c[1]}
   /\ \A d \in {agg[v] : v \in Nodes} : ~Iso2(d) => Global(c,d)=(IF d \in DOMAIN rows[c[1]][c] THEN rows[c[1]][c][d] ELSE 0)
----
(* (2) *)
REC == ndJsonDeserialize(IOEnv.REC)
NREC == atoi(IOEnv.NREC)
CHUNKS == atoi(IOEnv.CHUNKS)
JInit == /\ chunk \in 1..CHUNKS /\ i = (chunk-1)*((NREC+CHUNKS-1) \div CHUNKS) + 1 /\ own=0 /\ agg=0 /\ known=0 /\ rows=0 /\ pc=0
JNext == /\ i < chunk*((NREC+CHUNKS-1) \div CHUNKS) /\ i<NREC /\ i'=i+1 /\ UNCHANGED <<own,agg,known,rows,pc,chunk>>
Owner==1
\* ---- a distributed matrix D: process -> what it stores.  An unknown is named by its global index, or by its place if it has none.
Named(O,k) == \E e \in 1..Len(O.ix) : O.ix[e][1]=k
Pair(O,k) == O.ix[CHOOSE e \in 1..Len(O.ix) : O.ix[e][1]=k]
View(D) == TLCEval([p \in DOMAIN D |-> TLCEval([k \in 0..D[p].n-1 |-> IF Named(D[p],k) THEN [key |-> <<0,Pair(D[p],k)[2]>>, at |-> Pair(D[p],k)[3]] ELSE [key |-> <<p,k>>, at |-> Owner]])])
Places(D) == UNION {{<<p,k>> : k \in 0..D[p].n-1} : p \in DOMAIN D}
Keys(D,W) == {W[q[1]][q[2]].key : q \in Places(D)}
OwnedBy(D,W) == TLCEval([k \in Keys(D,W) |-> {q \in Places(D) : W[q[1]][q[2]].key=k /\ W[q[1]][q[2]].at=Owner}])
Zero(bs) == [q \in 1..bs*bs |-> 0]
One(bs) == [q \in 1..bs*bs |-> IF ((q-1) \div bs)=((q-1)%bs) THEN 1 ELSE 0]
Blk(e,bs) == [q \in 1..bs*bs |-> e[2+q]]
\* the global matrix: the rows of the owners
Gl(D,W,bs) == LET es==UNION {{<<p,e>> : e \in {e \in 1..Len(D[p].a) : W[p][D[p].a[e][1]].at=Owner}} : p \in DOMAIN D}
                  at(x)==<<W[x[1]][D[x[1]].a[x[2]][1]].key,W[x[1]][D[x[1]].a[x[2]][2]].key>>
              IN TLCEval([c \in {at(x) : x \in es} |-> LET x==CHOOSE x \in es : at(x)=c IN Blk(D[x[1]].a[x[2]],bs)])
NonZero(M,bs) == {c \in DOMAIN M : M[c] # Zero(bs)}
Same(M1,M2,bs) == /\ NonZero(M1,bs)=NonZero(M2,bs) /\ \A c \in NonZero(M1,bs) : M1[c]=M2[c]
Formed(D,W,bs,kind) == LET O==OwnedBy(D,W) G==Gl(D,W,bs) IN
  /\ \A p \in DOMAIN D : LET o==D[p] IN
       /\ \A e \in 1..Len(o.ix) : o.ix[e][1] \in 0..o.n-1 /\ o.ix[e][3] \in 1..3
       /\ Cardinality({o.ix[e][1] : e \in 1..Len(o.ix)})=Len(o.ix) /\ Cardinality({o.ix[e][2] : e \in 1..Len(o.ix)})=Len(o.ix)
       /\ \A e \in 1..Len(o.a) : o.a[e][1] \in 0..o.n-1 /\ o.a[e][2] \in 0..o.n-1
       /\ \A k \in 0..o.n-1 : W[p][k].at # Owner => \* Dirichlet rows; after coarsening the diagonal of the owner
            \A e \in 1..Len(o.a) : o.a[e][1]=k => CASE kind="coarse" -> o.a[e][2] # k \/ Blk(o.a[e],bs)=G[<<W[p][k].key,W[p][k].key>>]
                                                   [] OTHER -> Blk(o.a[e],bs)=(IF o.a[e][2]=k THEN One(bs) ELSE Zero(bs))
       /\ \A k \in 0..o.n-1 : \E e \in 1..Len(o.a) : o.a[e][1]=k /\ o.a[e][2]=k
  /\ \A k \in DOMAIN O : Cardinality(O[k])=1
  /\ \A q \in Places(D) : LET w==CHOOSE w \in O[W[q[1]][q[2]].key] : TRUE IN D[q[1]].ex[q[2]+1]=1000*w[1]+w[2]
Comp(E,S) == FoldLeft(LAMBDA acc,k : acc \cup {e[2] : e \in {e \in E : e[1] \in acc /\ e[2] \in S}},{CHOOSE v \in S : \A w \in S : v<=w},[k \in 1..Cardinality(S) |-> k])
\* D is coarsened to C by the maps
Coarsened(D,C,map,bs) == LET W==View(D) X==View(C) O==OwnedBy(D,W)
      img(q)==IF map[q[1]][q[2]+1]=-1 THEN <<-1,-1>> ELSE X[q[1]][map[q[1]][q[2]+1]].key
      own1(q)==CHOOSE w \in O[W[q[1]][q[2]].key] : TRUE
      ko==TLCEval([k \in DOMAIN O |-> img(CHOOSE w \in O[k] : TRUE)])
      G==Gl(D,W,bs) H==Gl(C,X,bs)
      act==TLCEval({c \in DOMAIN G : ko[c[1]] # <<-1,-1>> /\ ko[c[2]] # <<-1,-1>>})
      to==TLCEval([c \in act |-> <<ko[c[1]],ko[c[2]]>>])
      tgt==TLCEval({to[c] : c \in act})
      P==TLCEval([t \in tgt |-> LET cs=={c \in act : to[c]=t} IN [q \in 1..bs*bs |-> MapThenSumSet(LAMBDA c : G[c][q],cs)]]) IN
  /\ DOMAIN C=DOMAIN D /\ Formed(C,X,bs,"coarse")
  /\ \A p \in DOMAIN D : Len(map[p])=D[p].n /\ {map[p][k] : k \in 1..Len(map[p])} \ {-1}=0..C[p].n-1
  /\ \A q \in Places(D) : img(q)=ko[W[q[1]][q[2]].key]                 \* copies agree with their owner
  /\ \A q \in Places(D) : img(q) # <<-1,-1>> => ((W[q[1]][q[2]].at=Owner) <=> (X[q[1]][map[q[1]][q[2]+1]].at=Owner))
  /\ \A p \in DOMAIN D : LET E=={<<D[p].a[e][1],D[p].a[e][2]>> : e \in 1..Len(D[p].a)} IN
        \A b \in 0..C[p].n-1 : X[p][b].at=Owner => LET S=={k \in 0..D[p].n-1 : map[p][k+1]=b} IN Comp(E,S)=S
  /\ tgt \subseteq DOMAIN H /\ Same(H,P,bs)
Redistributed(D,R,bs) == LET W==View(D) X==View(R) IN
  /\ DOMAIN R # {} /\ Formed(R,X,bs,"red") /\ Keys(D,W)=Keys(R,X) /\ \A k \in Keys(R,X) : k[1]=0
  /\ DOMAIN Gl(D,W,bs) \subseteq DOMAIN Gl(R,X,bs) /\ Same(Gl(D,W,bs),Gl(R,X,bs),bs)
ParOK(x) == LET np==x.np L(p)==Len(x.lev[p]) ml==CHOOSE m \in {L(p) : p \in 1..np} : \A p \in 1..np : L(p)<=m
     D(l)==[p \in {p \in 1..np : L(p)>=l} |-> x.lev[p][l]]
     R(l)==[p \in {p \in 1..np : L(p)>=l /\ x.lev[p][l].red[1].size>0} |-> x.lev[p][l].red[1]]
     red(l)==\E p \in DOMAIN D(l) : Len(x.lev[p][l].red)>0
     W1==View(D(1)) fid(q)==x.pr[q[1]].loc[q[2]+1] IN
  /\ \A p \in 1..np : x.pr[p].levels=L(p) /\ L(p)>=1 /\ x.pr[p].maxlevels=ml /\ x.pr[p].built /\ (x.pr[p].has => L(p)=ml)
  /\ ml<=x.maxl+1
  \* the finest level is the given matrix
  /\ Formed(D(1),W1,x.bs,"fine")
  /\ \A q,r \in Places(D(1)) : (W1[q[1]][q[2]].key=W1[r[1]][r[2]].key) <=> (fid(q)=fid(r))
  /\ LET nm==TLCEval([k \in Keys(D(1),W1) |-> fid(CHOOSE q \in Places(D(1)) : W1[q[1]][q[2]].key=k)]) G==Gl(D(1),W1,x.bs) IN
       /\ Cardinality(DOMAIN G)=Len(x.a) /\ {<<nm[c[1]],nm[c[2]],G[c]>> : c \in DOMAIN G}={<<e[1],e[2],Blk(e,x.bs)>> : e \in ToSet(x.a)}
  /\ \A l \in 1..ml :
       /\ red(l) => /\ x.acc # 0 /\ \A p \in DOMAIN D(l) : Len(x.lev[p][l].red)=1
                    /\ Redistributed(D(l),R(l),x.bs) /\ \A p \in DOMAIN R(l) : R(l)[p].size=Cardinality(DOMAIN R(l))
       /\ \A p \in DOMAIN D(l) : D(l)[p].size=Cardinality(DOMAIN D(l))
       /\ l<ml => LET F==IF red(l) THEN R(l) ELSE D(l) IN Coarsened(F,D(l+1),[p \in DOMAIN F |-> x.lev[p][l].map],x.bs)
       /\ (l=ml /\ x.acc # 0 /\ Cardinality(DOMAIN D(l))>1) => red(l)
RecordOK == (i<=NREC /\ i<=chunk*((NREC+CHUNKS-1) \div CHUNKS)) => ParOK(REC[i])
============================================================================
