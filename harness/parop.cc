// Records calls of the parallel operators, preconditioner wrappers and scalar products, and Krylov solves built on them, between MPI processes.
#include <config.h>
#include "fp2.hh"
#include <fstream>
#include <dune/common/parallel/mpihelper.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/scalarproducts.hh>
#include <dune/istl/schwarz.hh>
#include <dune/istl/novlpschwarz.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/owneroverlapcopy.hh>
using namespace Dune; using vt::Rng; using vt::Obj; using vt::Fp; using vt::Fp2; using OS=OwnerOverlapCopyAttributeSet; using Cat=SolverCategory;
using Comm=OwnerOverlapCopyCommunication<int>; using LI=Comm::ParallelIndexSet::LocalIndex;
int rank,np; std::ofstream out,kout;
using Tab=std::vector<std::vector<int>>; using Vec=std::vector<Fp2>; using VV=std::vector<Vec>; using Dense=std::vector<Vec>;
std::string jm(const Dense& A){ std::string r="["; for(std::size_t i=0;i<A.size();++i) r+=(i?",":"")+vt::js(A[i]); return r+"]"; }
std::string jms(const std::vector<Dense>& A){ std::string r="["; for(std::size_t i=0;i<A.size();++i) r+=(i?",":"")+jm(A[i]); return r+"]"; }
std::string jt(const Tab& t){ std::string r="["; for(std::size_t i=0;i<t.size();++i) r+=(i?",":"")+vt::js(t[i]); return r+"]"; }
Fp2 rnd(Rng& g,bool real=false){ int k=int(g.below(8)); if(k==0) return Fp2(0); return Fp2(Fp(g.below(vt::P)),real||k<3?Fp(0):Fp(g.below(vt::P))); }
Fp2 rnz(Rng& g,bool real=false){ return Fp2(Fp(1+g.below(vt::P-1)),real||g.chance(30)?Fp(0):Fp(g.below(vt::P))); }
template<class B> struct E { static constexpr int n=1; static auto& at(B& b,int){ return b; } };
template<class T,int k> struct E<FieldVector<T,k>> { static constexpr int n=k; static T& at(FieldVector<T,k>& b,int i){ return b[i]; } };
template<class B,int n> void put(B& b,const Dense& A,int r,int c){ if constexpr(std::is_same_v<B,Fp2>) b=A[r][c]; else for(int i=0;i<n;++i) for(int j=0;j<n;++j) b[i][j]=A[r+i][c+j]; }
// distribution of ng blocks; block g belongs to the index set of p iff pis[p][g]
struct Dist { int ng; Tab at,pis; std::vector<int> id; int owner(int g) const { for(int p=0;p<np;++p) if(at[p][g]==1) return p; return -1; } };
Dist random(Rng& g,int ng,bool nov){ Dist d; d.ng=ng; d.at.assign(np,std::vector<int>(ng)); d.pis.assign(np,std::vector<int>(ng,1)); int pa=int(g.in(0,100)), pc=nov?int(g.in(40,100)):50;
  for(int i=0;i<ng;++i){ d.id.push_back(3*i+int(g.below(3))); int ow=int(g.below(np)); bool single=true; for(int p=0;p<np;++p){ d.at[p][i]= p==ow?1: g.chance(pa)?(g.chance(pc)?3:2):0; if(p!=ow&&d.at[p][i]) single=false; } if(single&&g.chance(40)) d.pis[ow][i]=0; }
  for(int i=ng-1;i>0;--i) std::swap(d.id[i],d.id[g.below(i+1)]); return d; }
// local view of a process
struct Loc { std::vector<int> mine,loc; int n=0; std::shared_ptr<Comm> c; };
Loc setup(const Dist& d,Rng& g,Cat::Category cat){ Loc l; for(int i=0;i<d.ng;++i) if(d.at[rank][i]) l.mine.push_back(i); l.n=int(l.mine.size()); Rng h(g.s*31+rank*17+5); for(int i=0;i<l.n;++i) l.loc.push_back(i); for(int i=l.n-1;i>0;--i) std::swap(l.loc[i],l.loc[h.below(i+1)]);
  l.c=std::make_shared<Comm>(MPI_COMM_WORLD,cat); auto& pis=l.c->indexSet(); pis.beginResize(); for(int k=0;k<l.n;++k) if(d.pis[rank][l.mine[k]]) pis.add(d.id[l.mine[k]],LI(l.loc[k],OS::AttributeSet(d.at[rank][l.mine[k]]),true)); pis.endResize(); l.c->remoteIndices().rebuild<false>(); return l; }
// everything below is generated identically on all ranks (one random stream); results are gathered
template<class V> void fill(V& v,const Loc& l,const VV& x){ using EE=E<typename V::block_type>; v.resize(l.n); for(int k=0;k<l.n;++k) for(int i=0;i<EE::n;++i) EE::at(v[l.loc[k]],i)=x[rank][l.mine[k]*EE::n+i]; }
template<class V> VV gather(V& v,const Loc& l,int ng){ using EE=E<typename V::block_type>; int m=ng*EE::n; std::vector<int> s(2*m+1), r((2*m+1)*np); for(int k=0;k<l.n;++k) for(int i=0;i<EE::n;++i){ Fp2 e=EE::at(v[l.loc[k]],i); s[2*(l.mine[k]*EE::n+i)]=e.re.v; s[2*(l.mine[k]*EE::n+i)+1]=e.im.v; } MPI_Gather(s.data(),2*m+1,MPI_INT,r.data(),2*m+1,MPI_INT,0,MPI_COMM_WORLD);
  VV o(np,Vec(m)); for(int p=0;p<np;++p) for(int j=0;j<m;++j) o[p][j]=Fp2(Fp(r[p*(2*m+1)+2*j]),Fp(r[p*(2*m+1)+2*j+1])); return o; }
Tab expand(const Tab& t,int n){ Tab r(t.size()); for(std::size_t p=0;p<t.size();++p) for(int x:t[p]) for(int i=0;i<n;++i) r[p].push_back(x); return r; }
VV vals(const Dist& d,Rng& g,int n,bool cons){ VV x(np,Vec(d.ng*n)); Vec s(d.ng*n); for(auto& e:s) e=rnd(g); for(int p=0;p<np;++p) for(int b=0;b<d.ng;++b) for(int i=0;i<n;++i) if(d.at[p][b]) x[p][b*n+i]=cons?s[b*n+i]:rnd(g); return x; }
template<class M> M local(const Dist& d,const Loc& l,const Dense& L,Rng& g,bool diag=false){ constexpr int n=E<typename BlockVector<std::conditional_t<std::is_same_v<typename M::block_type,Fp2>,Fp2,FieldVector<Fp2,2>>>::block_type>::n; Rng h(g.s*5+rank);
  std::vector<int> inv(l.n); for(int k=0;k<l.n;++k) inv[l.loc[k]]=l.mine[k]; M a(l.n,l.n,M::row_wise);
  for(auto r=a.createbegin();r!=a.createend();++r) for(int j=0;j<l.n;++j){ bool z=true; for(int i=0;i<n;++i) for(int k=0;k<n;++k) z&=L[inv[r.index()]*n+i][inv[j]*n+k]==0; if(!z||h.chance(15)||(diag&&j==int(r.index()))) r.insert(j); }
  for(auto r=a.begin();r!=a.end();++r) for(auto e=r->begin();e!=r->end();++e) put<typename M::block_type,n>(*e,L,inv[r.index()]*n,inv[e.index()]*n);
  (void)d; return a; }
// random local matrices; nov: legal decomposition of A; ov: owner rows complete if `legal'
template<int n> std::vector<Dense> mats(const Dist& d,Rng& g,bool nov,bool& legal,Dense& A){ int m=d.ng*n, dens=int(g.in(10,100)); std::vector<Dense> L(np,Dense(m,Vec(m))); A.assign(m,Vec(m));
  auto blk=[&](Dense& D,int r,int c,auto f){ for(int i=0;i<n;++i) for(int j=0;j<n;++j) f(D[r*n+i][c*n+j],r*n+i,c*n+j); };
  for(int p=0;p<np;++p) for(int r=0;r<d.ng;++r) for(int c=0;c<d.ng;++c) if(d.at[p][r]&&d.at[p][c]&&g.chance(dens)) blk(L[p],r,c,[&](Fp2& e,int,int){ e=rnd(g); });
  for(int r=0;r<d.ng;++r) for(int c=0;c<d.ng;++c){
    if(!nov){ int p=d.owner(r); if(d.at[p][c]) blk(A,r,c,[&](Fp2& e,int i,int j){ e=L[p][i][j]; }); else if(!legal&&g.chance(dens)) blk(A,r,c,[&](Fp2& e,int,int){ e=rnd(g); }); continue; }
    auto bc=[&](int p,int k){ return d.at[p][k]==1||d.at[p][k]==3; }; bool main=false; int first=-1;
    for(int p=0;p<np;++p) if(bc(p,r)&&bc(p,c)){ if(d.at[p][r]==1||d.at[p][c]==1){ main=true; blk(A,r,c,[&](Fp2& e,int i,int j){ e+=L[p][i][j]; }); } }
    if(!main) for(int p=0;p<np;++p) if(bc(p,r)&&bc(p,c)){ if(first<0){ first=p; blk(A,r,c,[&](Fp2& e,int i,int j){ e=L[p][i][j]; }); } else blk(L[p],r,c,[&](Fp2& e,int i,int j){ e=A[i][j]; }); } }
  return L; }
template<class B,class MB> void ops(Rng& g,bool nov){ using V=BlockVector<B>; using M=BCRSMatrix<MB>; constexpr int n=E<B>::n; Dist d=random(g,int(g.in(0,n==1?5:3)),nov); bool legal=g.chance(60); Dense A; auto L=mats<n>(d,g,nov,legal,A); Loc l=setup(d,g,nov?Cat::nonoverlapping:Cat::overlapping); M a=local<M>(d,l,L[rank],g);
  std::shared_ptr<AssembledLinearOperator<M,V,V>> op; if(nov){ if(g.chance(50)) op=std::make_shared<NonoverlappingSchwarzOperator<M,V,V,Comm>>(a,*l.c); else op=std::make_shared<NonoverlappingSchwarzOperator<M,V,V,Comm>>(std::make_shared<const M>(a),*l.c); } else op=std::make_shared<OverlappingSchwarzOperator<M,V,V,Comm>>(a,*l.c);
  for(int s=0;s<2;++s){ VV x=vals(d,g,n,nov||legal||g.chance(50)), y0=vals(d,g,n,nov); bool cons=nov||legal; if(legal&&!nov&&g.chance(50)) for(int p=0;p<np;++p) (void)p; Fp2 al=rnd(g); bool sa=g.chance(50); V X,Y; fill(X,l,x); fill(Y,l,y0); const V& cx=X; if(sa) op->applyscaleadd(al,cx,Y); else op->apply(cx,Y); VV z=gather(Y,l,d.ng), x2=gather(X,l,d.ng);
    if(rank==0) out<<Obj().f("kind",std::string(nov?"nov":"ov")).f("op",std::string(sa?"scaleadd":"apply")).f("np",np).f("ng",d.ng*n).raw("at",jt(expand(d.at,n))).raw("L",jms(L)).raw("A",jm(A)).f("legal",cons&&legal&&op->category()==(nov?Cat::nonoverlapping:Cat::overlapping)).raw("al",al.json()).raw("x",jm(x2)).raw("y",jm(y0)).raw("res",jm(z)).str()<<"\n"; } }
template<class B> void dots(Rng& g){ using V=BlockVector<B>; constexpr int n=E<B>::n; Dist d=random(g,int(g.in(0,6)),false); int how=int(g.below(5)); Cat::Category cat=how==1||how==3?Cat::nonoverlapping:Cat::overlapping; Loc l=setup(d,g,cat); std::shared_ptr<ScalarProduct<V>> sp;
  switch(how){ case 0: sp=std::make_shared<OverlappingSchwarzScalarProduct<V,Comm>>(*l.c); break; case 1: sp=std::make_shared<NonoverlappingSchwarzScalarProduct<V,Comm>>(l.c); break; case 2: case 3: sp=createScalarProduct<V>(*l.c,cat); break; case 4: cat=Cat::sequential; sp=createScalarProduct<V>(*l.c,cat); }
  for(int s=0;s<2;++s){ VV x=vals(d,g,n,g.chance(70)), y=vals(d,g,n,g.chance(70)); V X,Y; fill(X,l,x); fill(Y,l,y); Fp2 r=sp->dot(X,Y); int me[2]={r.re.v,r.im.v}; if(sp->category()!=cat) me[0]=-1; std::vector<int> all(2*np); MPI_Gather(me,2,MPI_INT,all.data(),2,MPI_INT,0,MPI_COMM_WORLD);
    if(rank==0){ Tab t; for(int p=0;p<np;++p) t.push_back({all[2*p],all[2*p+1]}); out<<Obj().f("kind",std::string("dot")).f("op",std::string(how==4?"sequential":"parallel")).f("np",np).f("ng",d.ng*n).raw("at",jt(expand(d.at,n))).raw("x",jm(x)).raw("y",jm(y)).raw("dot",jt(t)).str()<<"\n"; } } }
template<class T> double re(T x){ return x; } template<class T> double re(std::complex<T> x){ return x.real(); } template<class T> double im(T){ return 0; } template<class T> double im(std::complex<T> x){ return x.imag(); }
template<class B,class F> void norms(Rng& g){ using V=BlockVector<B>; constexpr int n=E<B>::n; Dist d=random(g,int(g.in(0,6)),false); bool seq=g.chance(15); Loc l=setup(d,g,Cat::overlapping); auto sp=createScalarProduct<V>(*l.c,seq?Cat::sequential:g.chance(50)?Cat::overlapping:Cat::nonoverlapping);
  std::vector<Tab> x(np); for(int p=0;p<np;++p) for(int b=0;b<d.ng*n;++b) x[p].push_back(d.at[p][b/n]?std::vector<int>{int(g.in(-9,9)),std::is_same_v<F,double>||std::is_same_v<F,float>?0:int(g.in(-9,9))}:std::vector<int>{0,0});
  V X(l.n); for(int k=0;k<l.n;++k) for(int i=0;i<n;++i){ auto& v=x[rank][l.mine[k]*n+i]; if constexpr(std::is_arithmetic_v<F>) E<B>::at(X[l.loc[k]],i)=F(v[0]); else E<B>::at(X[l.loc[k]],i)=F(v[0],v[1]); }
  double q=sp->norm(X); double w=q*q; int me=std::abs(w-std::round(w))<1e-2?int(std::lround(w)):-1; std::vector<int> all(np); MPI_Gather(&me,1,MPI_INT,all.data(),1,MPI_INT,0,MPI_COMM_WORLD);
  F dd=sp->dot(X,X); int me2=int(std::lround(re(dd))); std::vector<int> all2(np); if(std::abs(im(dd))>1e-6) me2=-1; MPI_Gather(&me2,1,MPI_INT,all2.data(),1,MPI_INT,0,MPI_COMM_WORLD);   // <x,x> = |x|^2
  if(rank==0){ std::string s="["; for(int p=0;p<np;++p) s+=(p?",":"")+jt(x[p]); for(auto& a:{all,all2}) out<<Obj().f("kind",std::string("norm")).f("op",std::string(seq?"sequential":"parallel")).f("np",np).f("ng",d.ng*n).raw("at",jt(expand(d.at,n))).raw("x",s+"]").f("norm",a).str()<<"\n"; } }
template<class V> struct Mock : Preconditioner<V,V> { const BCRSMatrix<typename std::conditional<std::is_same_v<typename V::block_type,Fp2>,Fp2,FieldMatrix<Fp2,2,2>>::type>* a; int calls[3]={0,0,0}; bool fwd=true;
  void pre(V&,V&) override { ++calls[0]; } void apply(V& v,const V& d) override { ++calls[1]; a->umv(d,v); } template<bool f> void apply(V& v,const V& d){ fwd=f; apply(v,d); } void post(V&) override { ++calls[2]; } Cat::Category category() const override { return Cat::sequential; } };
template<class B,class MB> void precs(Rng& g,int kind){ using V=BlockVector<B>; using M=BCRSMatrix<MB>; constexpr int n=E<B>::n; bool nov=kind==1; Dist d=random(g,int(g.in(1,n==1?5:3)),nov); bool legal=false; Dense A; auto L=mats<n>(d,g,false,legal,A);
  if(kind==2) for(auto& D:L) for(std::size_t i=0;i<D.size();++i) D[i][i]=rnz(g);
  Loc l=setup(d,g,nov?Cat::nonoverlapping:Cat::overlapping); M a=local<M>(d,l,L[rank],g,true); Mock<V> mock; mock.a=&a; std::shared_ptr<Preconditioner<V,V>> p; int it=int(g.in(0,2)); Fp2 w= rnz(g); bool sh=g.chance(50); int fw=kind<2?int(g.below(3)):0; auto shm=std::make_shared<Mock<V>>(); shm->a=&a; Mock<V>& m= sh? *shm : mock;
  using BP=BlockPreconditioner<V,V,Comm,Mock<V>>; using NP_=NonoverlappingBlockPreconditioner<Comm,Mock<V>>; std::shared_ptr<BP> bp; std::shared_ptr<NP_> nbp;
  if(kind==0) p=bp= sh? std::make_shared<BP>(shm,*l.c):std::make_shared<BP>(mock,*l.c);
  else if(kind==1) p=nbp= sh? std::make_shared<NP_>(shm,*l.c):std::make_shared<NP_>(mock,*l.c);
  else p=std::make_shared<ParSSOR<M,V,V,Comm>>(a,it,w,*l.c);
  bool catok= p->category()==(nov?Cat::nonoverlapping:Cat::overlapping);
  VV x=vals(d,g,n,false), b=vals(d,g,n,false), v=vals(d,g,n,false), df=vals(d,g,n,g.chance(50)); V X,Bv,Vv,D; fill(X,l,x); fill(Bv,l,b); fill(Vv,l,v); fill(D,l,df); std::string opn= kind==0?"ovlp":kind==1?"novlp":"ssor";
  p->pre(X,Bv); VV x2=gather(X,l,d.ng), b2=gather(Bv,l,d.ng); if(fw==0||kind==2) p->apply(Vv,D); else if(kind==0){ if(fw==1) bp->template apply<true>(Vv,D); else bp->template apply<false>(Vv,D); } else { if(fw==1) nbp->template apply<true>(Vv,D); else nbp->template apply<false>(Vv,D); } p->post(X);
  if(fw && m.fwd!=(fw==1)) catok=false;
  for(auto q:{0,1}) (void)q; VV z=gather(Vv,l,d.ng); Tab ord(np); { std::vector<int> s(d.ng+1),r((d.ng+1)*np); for(int k=0;k<l.n;++k) s[l.loc[k]]=l.mine[k]+1; MPI_Gather(s.data(),d.ng+1,MPI_INT,r.data(),d.ng+1,MPI_INT,0,MPI_COMM_WORLD); for(int q=0;q<np;++q) for(int k=0;k<d.ng;++k) if(r[q*(d.ng+1)+k]) ord[q].push_back(r[q*(d.ng+1)+k]); }
  if(rank==0){ if(b2!=b) catok=false;
    out<<Obj().f("kind",std::string("pre")).f("op",opn).f("np",np).f("ng",d.ng*n).raw("at",jt(expand(d.at,n))).raw("x",jm(x)).raw("res",jm(x2)).str()<<"\n";
    out<<Obj().f("kind",std::string("prec")).f("op",opn).f("np",np).f("ng",d.ng*n).raw("at",jt(expand(d.at,n))).raw("L",jms(L)).raw("x",jm(df)).raw("y",jm(v)).raw("al",w.json()).f("it",it).raw("ord",jt(ord)).f("calls",std::vector<int>{m.calls[0],m.calls[1],m.calls[2]}).f("cat",catok).raw("res",jm(z)).str()<<"\n"; } }
// Krylov solves of a distributed system; the record is that of the global system
template<class X> struct SPW : ParallelScalarProduct<X,Comm> { using ParallelScalarProduct<X,Comm>::ParallelScalarProduct; double norm(const X&) const override { return 1.0; } };
void krylov(Rng& g,bool nov){ using X=BlockVector<Fp2>; using M=BCRSMatrix<Fp2>; const char* sols[]={"loop","gradient","cg","bicgstab","gpcg","rfcg","cfcg"}; std::string sol=sols[g.below(7)]; bool herm= sol!="loop"&&sol!="bicgstab"; int ng=int(g.in(1,5)); Dist d=random(g,ng,nov);
  Dense A(ng,Vec(ng)), Bm(ng,Vec(ng)); std::vector<Dense> L(np,Dense(ng,Vec(ng))), P(np,Dense(ng,Vec(ng)));
  auto bc=[&](int p,int k){ return d.at[p][k]==1||d.at[p][k]==3; };
  auto sym=[&](Dense& D,auto can,int dens){ for(int i=0;i<ng;++i) for(int j=i;j<ng;++j) if(can(i,j)&&(i==j||g.chance(dens))){ D[i][j]=rnd(g,i==j); if(can(j,i)) D[j][i]= herm?conj(D[i][j]):rnd(g); } };
  if(!nov){ // owner rows complete; rows and columns exist only where the owner of the row has the column (both ways, so that A can be hermitian)
    auto can=[&](int i,int j){ return d.at[d.owner(i)][j]&&d.at[d.owner(j)][i]; }; sym(A,can,70);
    for(int p=0;p<np;++p) for(int i=0;i<ng;++i) for(int j=0;j<ng;++j) if(d.at[p][i]&&d.at[p][j]) L[p][i][j]= d.at[p][i]==1? A[i][j] : rnd(g);
    for(int p=0;p<np;++p){ auto own=[&](int i,int j){ return d.at[p][i]==1&&d.at[p][j]==1; }; sym(P[p],own,60); for(int i=0;i<ng;++i) for(int j=0;j<ng;++j){ if(own(i,j)) Bm[i][j]+=P[p][i][j]; if((d.at[p][i]==2||d.at[p][i]==3)&&d.at[p][j]) P[p][i][j]=rnd(g); } } }
  else { for(int p=0;p<np;++p){ auto can=[&](int i,int j){ return bc(p,i)&&bc(p,j); }; sym(L[p],can,70); sym(P[p],can,60); for(int i=0;i<ng;++i) for(int j=0;j<ng;++j) Bm[i][j]+=P[p][i][j]; }
    for(int i=0;i<ng;++i) for(int j=0;j<ng;++j){ bool main=false; int f=-1; for(int p=0;p<np;++p) if(bc(p,i)&&bc(p,j)&&(d.at[p][i]==1||d.at[p][j]==1)){ main=true; A[i][j]+=L[p][i][j]; }
      if(!main) for(int p=0;p<np;++p) if(bc(p,i)&&bc(p,j)){ if(f<0){ f=p; A[i][j]=L[p][i][j]; } else L[p][i][j]=A[i][j]; } }
    for(int p=0;p<np;++p) for(int i=0;i<ng;++i) for(int j=0;j<ng;++j) if(d.at[p][i]&&d.at[p][j]&&!(bc(p,i)&&bc(p,j))){ if(!(bc(p,i))||d.at[p][j]==2) L[p][i][j]=rnd(g); } }
  Loc l=setup(d,g,nov?Cat::nonoverlapping:Cat::overlapping); M a=local<M>(d,l,L[rank],g), pm=local<M>(d,l,P[rank],g); Mock<X> mock; mock.a=&pm; std::shared_ptr<LinearOperator<X,X>> op; std::shared_ptr<Preconditioner<X,X>> pr;
  if(nov){ op=std::make_shared<NonoverlappingSchwarzOperator<M,X,X,Comm>>(a,*l.c); pr=std::make_shared<NonoverlappingBlockPreconditioner<Comm,Mock<X>>>(mock,*l.c); } else { op=std::make_shared<OverlappingSchwarzOperator<M,X,X,Comm>>(a,*l.c); pr=std::make_shared<BlockPreconditioner<X,X,Comm,Mock<X>>>(mock,*l.c); }
  SPW<X> sp(*l.c,op->category()); int its=int(g.in(1,ng)), par= sol=="gpcg"?int(g.in(1,4)):int(g.in(0,4)); std::shared_ptr<InverseOperator<X,X>> s;
  if(sol=="loop") s=std::make_shared<LoopSolver<X>>(*op,sp,*pr,.5,its,0); else if(sol=="gradient") s=std::make_shared<GradientSolver<X>>(*op,sp,*pr,.5,its,0); else if(sol=="cg") s=std::make_shared<CGSolver<X>>(*op,sp,*pr,.5,its,0); else if(sol=="bicgstab") s=std::make_shared<BiCGSTABSolver<X>>(*op,sp,*pr,.5,its,0);
  else if(sol=="gpcg") s=std::make_shared<GeneralizedPCGSolver<X>>(*op,sp,*pr,.5,its,0,par); else if(sol=="rfcg") s=std::make_shared<RestartedFCGSolver<X>>(*op,sp,*pr,.5,its,0,par); else s=std::make_shared<CompleteFCGSolver<X>>(*op,sp,*pr,.5,its,0,par);
  VV x=vals(d,g,1,nov), b=vals(d,g,1,true); if(!nov) for(int p=0;p<np;++p) for(int i=0;i<ng;++i) if(d.at[p][i]>1) b[p][i]= rnd(g);
  auto glob=[&](const VV& v){ Vec r; for(int i=0;i<ng;++i) r.push_back(v[d.owner(i)][i]); return r; };
  // the smoothed defect on copies must not enter the preconditioner
  X Xv,Bv; fill(Xv,l,x); fill(Bv,l,b); InverseOperatorResult res; std::string st="ok"; vt::divzero=false; try { s->apply(Xv,Bv,res); } catch(Dune::Exception& e){ st="err"; }
  VV xr=gather(Xv,l,ng), br=gather(Bv,l,ng);
  if(rank==0){ bool same=true; for(int p=0;p<np;++p) for(int i=0;i<ng;++i) if(d.at[p][i]&&!(nov&&d.at[p][i]==2)) same&= xr[p][i]==xr[d.owner(i)][i]; if(!same&&st=="ok") st="inconsistent";
    kout<<Obj().f("sol",sol).f("par",par).f("its",its).f("nr",0).f("herm",herm).raw("A",jm(A)).raw("B","["+jm(Bm)+"]").raw("b",vt::js(glob(b))).raw("x0",vt::js(glob(x))).raw("x",vt::js(glob(xr))).raw("r",vt::js(glob(br))).f("out",st=="ok"&&vt::divzero?std::string("divzero"):st).raw("at",jt(d.at)).f("nov",nov).str()<<"\n"; } }
int main(int argc,char** argv){ MPIHelper::instance(argc,argv); MPI_Comm_rank(MPI_COMM_WORLD,&rank); MPI_Comm_size(MPI_COMM_WORLD,&np); if(rank==0){ out.open(argv[1]); kout.open(std::string(argv[1])+".k"); } Rng g(std::stoul(argv[2])); int cnt=std::stoi(argv[3]);
  using F1=FieldVector<Fp2,2>; using F2=FieldMatrix<Fp2,2,2>; using C=std::complex<double>;
  for(int k=0;k<cnt;++k){ ops<Fp2,Fp2>(g,false); ops<Fp2,Fp2>(g,true); ops<Fp2,Fp2>(g,true); ops<F1,F2>(g,false); ops<F1,F2>(g,true); dots<Fp2>(g); dots<F1>(g); norms<C,C>(g); norms<FieldVector<C,2>,C>(g); norms<FieldVector<double,3>,double>(g); norms<float,float>(g);
    precs<Fp2,Fp2>(g,0); precs<Fp2,Fp2>(g,1); precs<Fp2,Fp2>(g,2); precs<F1,F2>(g,0); precs<F1,F2>(g,1); for(int m=0;m<3;++m){ krylov(g,false); krylov(g,true); } }
  out.close(); kout.close(); MPI_Barrier(MPI_COMM_WORLD); if(rank==0) std::cout<<"RECORDS"<<std::endl; return 0; }
