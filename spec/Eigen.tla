-------------------------------- MODULE Eigen --------------------------------
(* The eigenvalue iterations: power iteration, inverse iteration (with shift), *)
(* Rayleigh quotient iteration and TLIME.                                      *)
(*  (1) machine over a tiny field, explored exhaustively: the iterations are    *)
(*      run on every symmetric 2x2 matrix; and the mode switching of TLIME over *)
(*      every sequence of outcomes of its comparisons.                          *)
(*  (2) judge of recorded histories of the real class, over GF(P), P=3 mod 4,   *)
(*      where the root of a square is the root that is a square itself (a       *)
(*      multiplicative absolute value), and over real numbers with known        *)
(*      integer eigenvalues.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
CONSTANTS P, MaxK
\* ---- arithmetic
Add(a,b) == (a+b)%P
Sub(a,b) == (a-b)%P
Mul(a,b) == (a*b)%P
RECURSIVE Pow(_,_)
Pow(a,e) == IF e=0 THEN 1 ELSE LET h==Pow(a,e\div 2) s==Mul(h,h) IN IF e%2=1 THEN Mul(s,a) ELSE s
Inv(a) == Pow(a,P-2)
Div(a,b) == Mul(a,Inv(b))
Root(a) == Pow(a,(P+1)\div 4)
IsSquare(a) == Mul(Root(a),Root(a))=a
Dot(x,y) == FoldLeft(LAMBDA acc,k : Add(acc,Mul(x[k],y[k])),0,[k \in 1..Len(x) |-> k])
MVec(A,x) == TLCEval([k \in DOMAIN A |-> Dot(A[k],x)])
Scale(a,x) == TLCEval([k \in DOMAIN x |-> Mul(a,x[k])])
Axpy(x,a,y) == TLCEval([k \in DOMAIN x |-> Add(x[k],Mul(a,y[k]))])
Norm2(x) == Dot(x,x)
Norm(x) == Root(Norm2(x))
Shifted(A,mu) == TLCEval([k \in DOMAIN A |-> [l \in DOMAIN A[k] |-> IF k=l THEN Sub(A[k][l],mu) ELSE A[k][l]]])
\* ---- one step.  State: x, lam, r (residual), k (iterations), rqi (mode of TLIME), ext (TLIME: no eigenvalue seen in the interval)
Start(x0,l0) == [x|->Scale(Inv(Norm(x0)),x0),lam|->l0,r|->P-1,k|->0,rqi|->FALSE,ext|->TRUE]
Power(A,st) == LET y==MVec(A,st.x) x==Scale(Inv(Norm(y)),y) z==MVec(A,x) l==Dot(x,z) IN
   [st EXCEPT !.x=x,!.lam=l,!.r=Norm(Axpy(z,Sub(0,l),x)),!.k=@+1]
Mu(st,par) == CASE par.op="inv" -> par.gam [] par.op="rqi" -> st.lam [] par.op="tlime" -> IF st.rqi THEN st.lam ELSE par.gam
\* |a| < |b|*c etc. compare representatives
Far(l,par) == Sub(l,par.gam) >= par.eta
Stationary(l,old,par) == Sub(l,old) < par.delta*l
Switch(st,q,l,old,par) ==
   LET a==IF ~st.rqi /\ q<par.eta THEN [st EXCEPT !.ext=FALSE,!.rqi=TRUE] ELSE st
       b==IF ~a.ext /\ a.rqi /\ Far(l,par) THEN [a EXCEPT !.rqi=FALSE] ELSE a
   IN  IF b.ext /\ ~b.rqi /\ b.k>=par.m /\ Stationary(l,old,par) THEN [b EXCEPT !.rqi=TRUE] ELSE b
\* the solver answered y to (A - mu I) y = x
Solved(A,st,y,par) ==
   LET mu==Mu(st,par) w==Inv(Norm(y)) x==Scale(w,y)
       z==MVec(A,x)
       l==IF par.avoid THEN Dot(x,z) ELSE Add(mu,Mul(Dot(y,st.x),Mul(w,w)))
       r==IF par.avoid THEN Norm(Axpy(z,Sub(0,l),x)) ELSE Norm(Scale(w,Axpy(st.x,Sub(mu,l),y)))
       q==IF par.avoid THEN Norm(Axpy(z,Sub(0,par.gam),x)) ELSE w       \* residual with respect to gamma
       s==[st EXCEPT !.x=x,!.lam=l,!.r=r,!.k=@+1]
   IN  IF par.op="tlime" THEN Switch(s,q,l,st.lam,par) ELSE s
Going(st,eps) == st.k=0 \/ st.r>eps
\* ---- (1) machine
VARIABLES A, par, st, out, chunk, i
Vec2 == (0..(P-1)) \X (0..(P-1))
Sane(x) == Norm2(x) # 0 /\ IsSquare(Norm2(x))
Det2(B) == Sub(Mul(B[1][1],B[2][2]),Mul(B[1][2],B[2][1]))
Sol2(B,b) == LET d==Inv(Det2(B)) IN <<Mul(d,Sub(Mul(B[2][2],b[1]),Mul(B[1][2],b[2]))),Mul(d,Sub(Mul(B[1][1],b[2]),Mul(B[2][1],b[1])))>>
MInit == /\ \E a \in 0..(P-1), b \in 0..(P-1), c \in 0..(P-1) : A = << <<a,b>>, <<b,c>> >>
         /\ par \in {[op|->o,gam|->g,eta|->e,delta|->1,m|->1,avoid|->v] : o \in {"power","inv","rqi","tlime"}, g \in {0,1}, e \in {2,P-2}, v \in BOOLEAN}
         /\ par.op \in {"power","rqi"} => par.gam=0 /\ par.eta=2
         /\ par.op="inv" => par.eta=2
         /\ par.op="power" => par.avoid
         /\ \E x \in Vec2 : Sane(x) /\ x[1] \in {0,1} /\ st=Start(x,1)
         /\ out="run" /\ chunk=0 /\ i=0
MPower == par.op="power" /\ Sane(MVec(A,st.x)) /\ st'=Power(A,st)
MSolve == /\ par.op # "power" /\ LET B==Shifted(A,Mu(st,par)) IN Det2(B) # 0 /\ Sane(Sol2(B,st.x)) /\ st'=Solved(A,st,Sol2(B,st.x),par)
MNext == /\ out="run" /\ st.k<MaxK /\ (MPower \/ MSolve)
         /\ UNCHANGED <<A,par,out,chunk,i>>
\* exact solves: the cheap formulas equal the Rayleigh quotient and its residual; the vector has length 1
Unit == Norm2(st.x)=1
Rayleigh == st.k>0 => st.lam=Dot(st.x,MVec(A,st.x))
Residual == st.k>0 => LET r2==Norm2(Axpy(MVec(A,st.x),Sub(0,st.lam),st.x)) IN IsSquare(r2) => st.r=Root(r2)
\* a vanishing residual means an eigenpair
Eigenpair == st.k>0 /\ st.r=0 /\ IsSquare(Norm2(Axpy(MVec(A,st.x),Sub(0,st.lam),st.x))) => Norm2(Axpy(MVec(A,st.x),Sub(0,st.lam),st.x))=0
\* the mode of TLIME
Modes == /\ (par.op # "tlime" => ~st.rqi /\ st.ext)
         /\ (st.k=0 => ~st.rqi /\ st.ext)
         /\ (~st.ext /\ st.rqi => ~Far(st.lam,par))
Once == [][~st.ext => ~st'.ext]_<<st,A,par>>
\* ---- (2) judge
Chunks == atoi(IOEnv.CHUNKS)
Rec == ndJsonDeserialize(IOEnv.REC)
N == atoi(IOEnv.NREC)
JInit == chunk \in 1..Chunks /\ i=chunk /\ A=0 /\ par=0 /\ st=0 /\ out=""
JNext == i+Chunks<=N /\ i'=i+Chunks /\ UNCHANGED <<A,par,st,out,chunk>>
\* what the solver was given: the operator, the matrix and the direct solver's copy are A - mu I, the right hand side is x
Asked(B,s,st1,p,d) ==
   LET M==Shifted(B,Mu(st1,p)) IN
   /\ s.rhs=st1.x /\ s.op=M
   /\ s.pz=Axpy(s.py,s.al,MVec(M,s.px))
   /\ (s.mat = << >> \/ s.mat=M)
   /\ (~d.direct \/ s.held = << >> \/ s.held=M)
RECURSIVE RunPower(_,_,_,_)
RunPower(B,s,eps,max) == IF ~Going(s,eps) THEN [st|->s,out|->"ok"] ELSE IF s.k>=max THEN [st|->s,out|->"err"] ELSE RunPower(B,Power(B,s),eps,max)
RECURSIVE RunSolves(_,_,_,_)
RunSolves(d,p,s,n) ==   \* n: solves consumed
   IF ~Going(s,p.eps) THEN [st|->s,out|->"ok",n|->n,asked|->TRUE]
   ELSE IF s.k>=d.max THEN [st|->s,out|->"err",n|->n,asked|->TRUE]
   ELSE IF n>=Len(p.sol) \/ ~Asked(d.A,p.sol[n+1],s,p,d) THEN [st|->s,out|->"?",n|->n,asked|->FALSE]
   ELSE RunSolves(d,p,Solved(d.A,s,p.sol[n+1].y,p),n+1)
StepOK(d,p) ==
   IF p.op="count" THEN p.out="err"     \* nothing applied yet
   ELSE LET f==IF p.op="power" THEN RunPower(d.A,Start(p.x0,p.l0),p.eps,d.max) ELSE RunSolves(d,p,Start(p.x0,p.l0),0) IN
        /\ p.out=f.out
        /\ (p.op="power" \/ (f.asked /\ f.n=Len(p.sol)))
        /\ (f.out="ok" => p.x=f.st.x /\ p.lam=f.st.lam /\ p.its=f.st.k /\ (p.op="tlime" => p.ext=f.st.ext))
HistOK(d) == (\A k \in 1..Len(d.steps) : StepOK(d,d.steps[k])) /\ ((d.verb=0) => ~d.said)
\* real numbers: symmetric matrices with integer eigenvalues; res in eps/1000, lam/gam/eta/eps in thousandths, len in millionths
Abs(a) == IF a<0 THEN 0-a ELSE a
RealOK(d) ==
   /\ d.out="err" \/ /\ d.res>=0 /\ d.res<=1001 /\ d.its<=d.max
                     /\ d.len \in 999990..1000010
                     /\ \E k \in 1..Len(d.eig) : Abs(d.lam-1000*d.eig[k])<=d.eps+1
                     /\ (d.alg="tlime" /\ ~d.ext => Abs(d.lam-d.gam)<=d.eta+d.eps+1)
   \* with a generic start vector and enough iterations the iterations that always converge do so, to the eigenvalue they promise
   /\ (~d.unit /\ d.max=2000 /\ d.alg="inv" =>
        LET g==IF d.zero THEN 0 ELSE d.gam dist==[k \in 1..Len(d.eig) |-> Abs(1000*d.eig[k]-g)]
            near==CHOOSE k \in DOMAIN dist : \A l \in DOMAIN dist : dist[k]<=dist[l]
            gap== \A l \in DOMAIN dist : d.eig[l]=d.eig[near] \/ 10*dist[near]<=8*dist[l]
        IN  gap => d.out="ok" /\ Abs(d.lam-1000*d.eig[near])<=d.eps+1)
   /\ (~d.unit /\ d.max=2000 /\ d.alg="power" =>
        LET top==CHOOSE k \in 1..Len(d.eig) : \A l \in 1..Len(d.eig) : Abs(d.eig[k])>=Abs(d.eig[l])
            gap== \A l \in 1..Len(d.eig) : d.eig[l]=d.eig[top] \/ 10*Abs(d.eig[l])<=8*Abs(d.eig[top])
        IN  gap /\ d.eig[top] # 0 => d.out="ok" /\ Abs(d.lam-1000*d.eig[top])<=d.eps+1)
   \* an eigenvector to start with is recognised at once
   /\ (d.exact /\ d.max>=1 /\ d.alg \in {"inv","tlime"} => d.out="ok" /\ d.its=1 /\ Abs(d.lam-1000*d.own)<=1)
   \* no iteration at all is allowed: nothing can have converged
   /\ (d.max=0 => d.out="err")
RecordOK == LET d==Rec[i] IN
   CASE d.kind="hist" -> HistOK(d) [] d.kind="real" -> RealOK(d) [] d.kind="shape" -> (d.out="ok") <=> (d.n=d.k)
=============================================================================
