// Records applications of the block sweeps, block triangular/diagonal solves and the preconditioners built from them over GF(P^2).
#include <config.h>
#include "fp2.hh"
#include <fstream>
#include <functional>
#include <dune/common/diagonalmatrix.hh>
#include <dune/common/parametertree.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/matrix.hh>
#include <dune/istl/bdmatrix.hh>
#include <dune/istl/scaledidmatrix.hh>
#include <dune/istl/multitypeblockmatrix.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/istl/gsetc.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioners.hh>
using namespace Dune; using vt::Fp2; using vt::Fp; using vt::Rng;
using Dense=std::vector<std::vector<Fp2>>;
Fp2 rnd(Rng& g){ int k=int(g.below(10)); if(k==0) return Fp2(0); if(k<4) return Fp2(Fp(g.in(-2,2)),Fp(0)); return Fp2(Fp(g.below(vt::P)),g.chance(50)?Fp(0):Fp(g.below(vt::P))); }
struct Tr { int s=0; std::vector<Tr> ch; };   // leaf of size s or node
int add(const Tr& t){ int n=t.s; for(auto& c:t.ch) n+=add(c); return n; }
void cut(const Tr& t,int lev,int& off,std::vector<std::vector<int>>& cuts){ // lev: level of the node (leaf 0)
  for(auto& c:t.ch){ int o=off; if(!c.ch.empty()||lev>1) cut(c,lev-1,off,cuts); else off+=c.s; (void)o; cuts[lev-1].push_back(off); } }
// ---- matrices: depth, random tree, fill entry values into the flat dense matrix
template<class B,class=void> struct MB;
template<> struct MB<Fp2> { static constexpr int depth=0; static Tr tree(Rng&){ return {1,{}}; } static void mk(Fp2& b,Rng& g,const Tr&,const Tr&,int r,int c,Dense& D){ b=D[r][c]=rnd(g); }
  static void dg(const Fp2& b,const Tr&,const Tr&,int r,int c,Dense& D){ D[r][c]=b; } };
template<int n,int m> struct MB<FieldMatrix<Fp2,n,m>> { using B=FieldMatrix<Fp2,n,m>; static constexpr int depth=0; static Tr tree(Rng&){ return {n,{}}; }
  static void mk(B& b,Rng& g,const Tr&,const Tr&,int r,int c,Dense& D){ for(int i=0;i<n;++i) for(int j=0;j<m;++j) b[i][j]=D[r+i][c+j]=rnd(g); }
  static void dg(const B& b,const Tr&,const Tr&,int r,int c,Dense& D){ for(int i=0;i<n;++i) for(int j=0;j<m;++j) D[r+i][c+j]=b[i][j]; } };
template<int n> struct MB<DiagonalMatrix<Fp2,n>> { using B=DiagonalMatrix<Fp2,n>; static constexpr int depth=0; static Tr tree(Rng&){ return {n,{}}; }
  static void mk(B& b,Rng& g,const Tr&,const Tr&,int r,int c,Dense& D){ for(int i=0;i<n;++i) b.diagonal()[i]=D[r+i][c+i]=rnd(g); }
  static void dg(const B& b,const Tr&,const Tr&,int r,int c,Dense& D){ for(int i=0;i<n;++i) D[r+i][c+i]=b.diagonal()[i]; } };
template<int n> struct MB<ScaledIdentityMatrix<Fp2,n>> { using B=ScaledIdentityMatrix<Fp2,n>; static constexpr int depth=0; static Tr tree(Rng&){ return {n,{}}; }
  static void mk(B& b,Rng& g,const Tr&,const Tr&,int r,int c,Dense& D){ Fp2 a=rnd(g); b=B(a); for(int i=0;i<n;++i) D[r+i][c+i]=a; }
  static void dg(const B& b,const Tr&,const Tr&,int r,int c,Dense& D){ for(int i=0;i<n;++i) D[r+i][c+i]=b.scalar(); } };
template<class C> struct MB<BCRSMatrix<C>> { using B=BCRSMatrix<C>; static constexpr int depth=MB<C>::depth+1;
  static Tr tree(Rng& g){ Tr t; int n=int(g.in(1,depth>1?3:4)); for(int i=0;i<n;++i) t.ch.push_back(MB<C>::tree(g)); return t; }
  static void mk(B& b,Rng& g,const Tr& rt,const Tr& ct,int r,int c,Dense& D){ bool sq= r==c; int dens=int(g.in(0,100)); B a(rt.ch.size(),ct.ch.size(),B::row_wise);
    for(auto it=a.createbegin();it!=a.createend();++it) for(std::size_t j=0;j<ct.ch.size();++j) if((sq&&j==it.index()) || g.chance(dens)) it.insert(j);
    std::vector<int> ro{r},co{c}; for(auto& x:rt.ch) ro.push_back(ro.back()+add(x)); for(auto& x:ct.ch) co.push_back(co.back()+add(x));
    for(auto i=a.begin();i!=a.end();++i) for(auto e=i->begin();e!=i->end();++e) MB<C>::mk(*e,g,rt.ch[i.index()],ct.ch[e.index()],ro[i.index()],co[e.index()],D);
    b=a; }
  static void dg(const B& a,const Tr& rt,const Tr& ct,int r,int c,Dense& D){ std::vector<int> ro{r},co{c}; for(auto& x:rt.ch) ro.push_back(ro.back()+add(x)); for(auto& x:ct.ch) co.push_back(co.back()+add(x));
    for(auto i=a.begin();i!=a.end();++i) for(auto e=i->begin();e!=i->end();++e) MB<C>::dg(*e,rt.ch[i.index()],ct.ch[e.index()],ro[i.index()],co[e.index()],D); } };
template<class C> struct MB<BDMatrix<C>> { using B=BDMatrix<C>; static constexpr int depth=1; static Tr tree(Rng& g){ return MB<BCRSMatrix<C>>::tree(g); }
  static void mk(B& b,Rng& g,const Tr& rt,const Tr&,int r,int,Dense& D){ B a(rt.ch.size()); int o=r; for(std::size_t i=0;i<rt.ch.size();++i){ MB<C>::mk(a[i][i],g,rt.ch[i],rt.ch[i],o,o,D); o+=add(rt.ch[i]); } b=a; }
  static void dg(const B& a,const Tr& rt,const Tr& ct,int r,int c,Dense& D){ MB<BCRSMatrix<C>>::dg(a,rt,ct,r,c,D); } };
template<class C> struct MB<Matrix<C>> { using B=Matrix<C>; static constexpr int depth=1; static Tr tree(Rng& g){ return MB<BCRSMatrix<C>>::tree(g); }
  static void mk(B& b,Rng& g,const Tr& rt,const Tr& ct,int r,int c,Dense& D){ b=B(rt.ch.size(),ct.ch.size()); int o=r; for(std::size_t i=0;i<rt.ch.size();++i){ int p=c; for(std::size_t j=0;j<ct.ch.size();++j){ MB<C>::mk(b[i][j],g,rt.ch[i],ct.ch[j],o,p,D); p+=add(ct.ch[j]); } o+=add(rt.ch[i]); } }
  static void dg(const B& b,const Tr& rt,const Tr& ct,int r,int c,Dense& D){ int o=r; for(std::size_t i=0;i<rt.ch.size();++i){ int p=c; for(std::size_t j=0;j<ct.ch.size();++j){ MB<C>::dg(b[i][j],rt.ch[i],ct.ch[j],o,p,D); p+=add(ct.ch[j]); } o+=add(rt.ch[i]); } } };
template<class... R> struct MB<MultiTypeBlockMatrix<R...>> { using B=MultiTypeBlockMatrix<R...>; using R0=std::tuple_element_t<0,std::tuple<R...>>; using D0=std::decay_t<decltype(std::declval<R0>()[Indices::_0])>;
  static constexpr int depth=MB<D0>::depth+1; static constexpr int N=sizeof...(R);
  static Tr tree(Rng& g){ Tr t; B b; Hybrid::forEach(std::make_index_sequence<N>{},[&](auto i){ t.ch.push_back(MB<std::decay_t<decltype(b[i][i])>>::tree(g)); }); return t; }
  static void mk(B& b,Rng& g,const Tr& rt,const Tr& ct,int r,int c,Dense& D){ int o=r; Hybrid::forEach(std::make_index_sequence<N>{},[&](auto i){ int p=c; Hybrid::forEach(std::make_index_sequence<N>{},[&](auto j){ MB<std::decay_t<decltype(b[i][j])>>::mk(b[i][j],g,rt.ch[i],ct.ch[j],o,p,D); p+=add(ct.ch[j]); }); o+=add(rt.ch[i]); }); }
  static void dg(const B& b,const Tr& rt,const Tr& ct,int r,int c,Dense& D){ int o=r; Hybrid::forEach(std::make_index_sequence<N>{},[&](auto i){ int p=c; Hybrid::forEach(std::make_index_sequence<N>{},[&](auto j){ MB<std::decay_t<decltype(b[i][j])>>::dg(b[i][j],rt.ch[i],ct.ch[j],o,p,D); p+=add(ct.ch[j]); }); o+=add(rt.ch[i]); }); } };
// ---- vectors
template<class V> struct VB;
template<> struct VB<Fp2> { static void size(Fp2&,const Tr&){} template<class V,class F> static void each(V& v,F f){ f(v); } };
template<int n> struct VB<FieldVector<Fp2,n>> { static void size(FieldVector<Fp2,n>&,const Tr&){} template<class V,class F> static void each(V& v,F f){ for(int i=0;i<n;++i) f(v[i]); } };
template<class C> struct VB<BlockVector<C>> { static void size(BlockVector<C>& v,const Tr& t){ v.resize(t.ch.size()); for(std::size_t i=0;i<t.ch.size();++i) VB<C>::size(v[i],t.ch[i]); }
  template<class V,class F> static void each(V& v,F f){ for(auto& e:v) VB<C>::each(e,f); } };
template<class... C> struct VB<MultiTypeBlockVector<C...>> { static void size(MultiTypeBlockVector<C...>& v,const Tr& t){ Hybrid::forEach(std::make_index_sequence<sizeof...(C)>{},[&](auto i){ VB<std::decay_t<decltype(v[i])>>::size(v[i],t.ch[i]); }); }
  template<class V,class F> static void each(V& v,F f){ Hybrid::forEach(std::make_index_sequence<sizeof...(C)>{},[&](auto i){ VB<std::decay_t<decltype(v[i])>>::each(v[i],f); }); } };
template<class V> std::vector<Fp2> flat(const V& v){ std::vector<Fp2> r; VB<V>::each(v,[&](const Fp2& e){ r.push_back(e); }); return r; }
template<class V> void fill(V& v,Rng& g){ bool z=g.chance(30); VB<V>::each(v,[&](Fp2& e){ e= z?Fp2(0):rnd(g); }); }
std::string jm(const Dense& A){ std::string r="["; for(std::size_t i=0;i<A.size();++i) r+=(i?",":"")+vt::js(A[i]); return r+"]"; }
std::string jc(const std::vector<std::vector<int>>& c){ std::string r="["; for(std::size_t i=0;i<c.size();++i) r+=(i?",":"")+vt::js(c[i]); return r+"]"; }

std::ofstream out;
// NTRI: triangular and diagonal solves exist for this matrix type; LMAX: block levels
template<class M,class V,bool TRI,int L> void one(Rng& g,const char* type,const M& a,const Tr& t,const Dense& D){
  std::vector<std::vector<int>> cuts(MB<M>::depth,std::vector<int>{0}); int off=0; cut(t,MB<M>::depth,off,cuts);
  constexpr BL<L> bl{};
  auto rec=[&](const char* kind,std::string m,int w,int it,auto&& call){
    V x,d; VB<V>::size(x,t); VB<V>::size(d,t); fill(x,g); fill(d,g); std::vector<Fp2> x0=flat(x), d0=flat(d); std::string st="ok"; bool pure=true; vt::divzero=false;
    try { call(x,d,pure); } catch(Dune::Exception&){ st="err"; }
    if(st=="ok" && vt::divzero) st="divzero";
    Dense D2(D.size(),std::vector<Fp2>(D.size())); MB<M>::dg(a,t,t,0,0,D2);
    out<<vt::Obj().f("kind",kind).f("type",type).f("m",m).f("l",L).raw("cuts",jc(cuts)).raw("A",jm(D)).f("x",x0).f("d",d0).f("w",w).f("it",it).f("y",flat(x)).f("pure",pure&&flat(d)==d0&&D2==D).f("out",st).str()<<"\n"; };
  auto W=[&]{ return g.chance(40)?1:int(g.in(2,9)); };
  int w;
#define STEP(f) w=W(); rec("sweep",#f,w,1,[&](V& x,const V& d,bool&){ if constexpr(L==1){ if(g.chance(50)){ f(a,x,d,Fp2(w)); return; } } f(a,x,d,Fp2(w),bl); });
  STEP(dbgs) STEP(bsorf) STEP(bsorb) STEP(dbjac)
#define TRISOLVE(f) w=W(); rec("sweep",#f,w,1,[&](V& x,const V& d,bool&){ if constexpr(L==1){ if(g.chance(50)){ if(w==1) f(a,x,d); else f(a,x,d,Fp2(w)); return; } } if(w==1) f(a,x,d,bl); else f(a,x,d,Fp2(w),bl); });
  if constexpr(TRI){ TRISOLVE(bltsolve) TRISOLVE(butsolve) TRISOLVE(ubltsolve) TRISOLVE(ubutsolve) TRISOLVE(bdsolve) }
  int it; 
  auto precond=[&](const char* m,auto&& p){ rec("prec",m,w,it,[&](V& x,const V& d,bool& pure){ V sx(x),sb(d); std::vector<Fp2> f=flat(sx),h=flat(sb); p->pre(sx,sb); pure&= flat(sx)==f&&flat(sb)==h;
      if(g.chance(40)){ V y(x); p->apply(y,d); }           // an earlier application must not matter
      p->apply(x,d); p->post(sx); pure&= flat(sx)==f; }); };
#define PREC(m,C) { w=W(); it=int(g.in(1,3)); std::shared_ptr<Preconditioner<V,V>> p; int how=int(g.below(3)); ParameterTree c; \
    if(how){ if(w!=1||g.chance(50)) c["relaxation"]=std::to_string(w); if(it!=1||g.chance(50)) c["iterations"]=std::to_string(it); } \
    if(how==0) p=std::make_shared<C<M,V,V,L>>(a,it,double(w)); else if(how==1) p=std::make_shared<C<M,V,V,L>>(a,c); else p=std::make_shared<C<M,V,V,L>>(std::shared_ptr<const AssembledLinearOperator<M,V,V>>(std::make_shared<MatrixAdapter<M,V,V>>(a)),c); \
    precond(m,p); }
  PREC("ssor",SeqSSOR) PREC("sor",SeqSOR) PREC("gs",SeqGS) PREC("jac",SeqJac)
  { w=W(); it=int(g.in(1,3)); SeqSOR<M,V,V,L> p(a,it,double(w)); bool f=g.chance(50); rec("prec",f?"sorf":"sorb",w,it,[&](V& x,const V& d,bool&){ if(f) p.template apply<true>(x,d); else p.template apply<false>(x,d); }); }
  { w=W(); it=1; ParameterTree c; bool tree=g.chance(50); if(tree&&(w!=1||g.chance(50))) c["relaxation"]=std::to_string(w); std::shared_ptr<Preconditioner<V,V>> p; if(tree) p=std::make_shared<Richardson<V,V>>(c); else p=std::make_shared<Richardson<V,V>>(double(w)); precond("richardson",p); }
}
template<class M,class V,bool TRI,int L> void cas(Rng& g,const char* type,int cnt){ for(int k=0;k<cnt;++k){ Tr t=MB<M>::tree(g); int n=add(t); Dense D(n,std::vector<Fp2>(n)); M a; MB<M>::mk(a,g,t,t,0,0,D); one<M,V,TRI,L>(g,type,a,t,D); } }
// the check for missing diagonal entries (DUNE_ISTL_WITH_CHECKING)
template<int L,class M,class V> void diag(Rng& g,int cnt);
#ifdef DUNE_ISTL_WITH_CHECKING
void diags(Rng& g,int cnt){ using F=FieldMatrix<Fp2,2,2>; using M1=BCRSMatrix<F>; using M2=BCRSMatrix<M1>; using V1=BlockVector<FieldVector<Fp2,2>>; using V2=BlockVector<V1>;
  auto mk1=[&](int n,bool& miss){ M1 a(n,n,M1::row_wise); for(auto r=a.createbegin();r!=a.createend();++r) for(int j=0;j<n;++j){ bool in=g.chance(j==int(r.index())?85:50); if(in) r.insert(j); else if(j==int(r.index())) miss=true; } for(auto& r:a) for(auto& e:r) for(int i=0;i<2;++i) e[i][i]=1; return a; };
  for(int k=0;k<cnt;++k){ bool miss=false,th; M1 a=mk1(int(g.in(1,4)),miss);
#define TRY(e) th=false; try{ e; } catch(Dune::ISTLError&){ th=true; } out<<vt::Obj().f("kind","diag").f("m",#e).f("missing",miss).f("thrown",th).str()<<"\n";
    TRY((SeqSSOR<M1,V1,V1>(a,1,1.0))) TRY((SeqSOR<M1,V1,V1>(a,1,1.0))) TRY((SeqJac<M1,V1,V1>(a,1,1.0))) TRY((SeqDILU<M1,V1,V1>(a,1.0)))
    miss=false; int n=int(g.in(1,3)); M2 b(n,n,M2::row_wise); for(auto r=b.createbegin();r!=b.createend();++r) for(int j=0;j<n;++j){ bool in=g.chance(j==int(r.index())?90:50); if(in) r.insert(j); else if(j==int(r.index())) miss=true; }
    for(auto r=b.begin();r!=b.end();++r) for(auto e=r->begin();e!=r->end();++e){ bool m2=false; *e=mk1(2,m2); if(e.index()==r.index()) miss|=m2; }
    TRY((SeqSSOR<M2,V2,V2,2>(b,1,1.0))) TRY((SeqSOR<M2,V2,V2,2>(b,1,1.0))) TRY((SeqJac<M2,V2,V2,2>(b,1,1.0))) } }
#endif
int main(int argc,char** argv){ out.open(argv[1]); Rng g(std::stoul(argv[2])); int c=std::stoi(argv[3]);
  using F1=FieldMatrix<Fp2,1,1>; using F2=FieldMatrix<Fp2,2,2>; using F3=FieldMatrix<Fp2,3,3>; using F21=FieldMatrix<Fp2,2,1>; using F12=FieldMatrix<Fp2,1,2>;
  using V0=BlockVector<Fp2>; using V1=BlockVector<FieldVector<Fp2,1>>; using V2=BlockVector<FieldVector<Fp2,2>>; using V3=BlockVector<FieldVector<Fp2,3>>;
#ifdef DUNE_ISTL_WITH_CHECKING
  cas<BCRSMatrix<F1>,V1,true,1>(g,"bcrs<fm1>",c); cas<BCRSMatrix<BCRSMatrix<F2>>,BlockVector<V2>,true,2>(g,"bcrs<bcrs<fm2>>",c); diags(g,c);
#else
  cas<BCRSMatrix<Fp2>,V0,false,1>(g,"bcrs<K>",c);
  cas<BCRSMatrix<F1>,V1,true,1>(g,"bcrs<fm1>",c); cas<BCRSMatrix<F2>,V2,true,1>(g,"bcrs<fm2>",c); cas<BCRSMatrix<F3>,V3,true,1>(g,"bcrs<fm3>",c);
  cas<BCRSMatrix<DiagonalMatrix<Fp2,2>>,V2,true,1>(g,"bcrs<diag2>",c); cas<BCRSMatrix<ScaledIdentityMatrix<Fp2,2>>,V2,true,1>(g,"bcrs<sid2>",c);
  cas<Matrix<F2>,V2,true,1>(g,"matrix<fm2>",c); cas<BDMatrix<F2>,V2,true,1>(g,"bd<fm2>",c);
  cas<BCRSMatrix<BCRSMatrix<F2>>,BlockVector<V2>,true,2>(g,"bcrs<bcrs<fm2>>",c); cas<BCRSMatrix<BCRSMatrix<F1>>,BlockVector<V1>,true,2>(g,"bcrs<bcrs<fm1>>",c);
  cas<BCRSMatrix<BCRSMatrix<Fp2>>,BlockVector<V0>,false,2>(g,"bcrs<bcrs<K>>",c);
  cas<MultiTypeBlockMatrix<MultiTypeBlockVector<F2,F21>,MultiTypeBlockVector<F12,F1>>,MultiTypeBlockVector<FieldVector<Fp2,2>,FieldVector<Fp2,1>>,false,1>(g,"mt<fm>",c);
  using B2=BCRSMatrix<F2>; using B21=BCRSMatrix<F21>; using B12=BCRSMatrix<F12>; using B1=BCRSMatrix<F1>;
  cas<MultiTypeBlockMatrix<MultiTypeBlockVector<B2,B21>,MultiTypeBlockVector<B12,B1>>,MultiTypeBlockVector<V2,V1>,false,2>(g,"mt<bcrs>",c);
#endif
  std::cout<<"RECORDS"<<std::endl; }
