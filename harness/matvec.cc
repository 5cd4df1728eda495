// P03: product-type operations and norms of every matrix type on random structures; ND-JSON records for spec/MatVec.tla
#define DUNE_ISTL_WITH_CHECKING 1
#define DUNE_FMatrix_WITH_CHECKING 1
#include "config.h"
#include "flat.hh"
#include <fstream>
using namespace vt; using namespace Dune;
static std::ofstream out; static long nrec=0; static std::set<std::string> missing;
static const char* OPS[]={"mv","mtv","umv","umtv","umhv","mmv","mmtv","mmhv","usmv","usmtv","usmhv"};
template<int o,class M,class K,class X,class Y> int apply(const M& A,const K& al,const X& x,Y& y){
#define T(k,call) if constexpr(o==k){ if constexpr(requires{ A.call; }) { A.call; return 1; } else return 0; }
  T(0,mv(x,y)) T(1,mtv(x,y)) T(2,umv(x,y)) T(3,umtv(x,y)) T(4,umhv(x,y)) T(5,mmv(x,y)) T(6,mmtv(x,y)) T(7,mmhv(x,y)) T(8,usmv(al,x,y)) T(9,usmtv(al,x,y)) T(10,usmhv(al,x,y))
#undef T
  return 0; }
template<int o,class M,class DV,class RV,class K> void one(const char* name,const M& A,const Tab& t,const Dim& rd,const Dim& cd,Rng& g){
  constexpr bool tr=(o!=0&&o!=2&&o!=5&&o!=8); constexpr bool sc=o>=8;
  int ar=1,ai=0; K al=K(1); if(sc) al=rnd<K>(g,ar,ai);
  using X=std::conditional_t<tr,RV,DV>; using Y=std::conditional_t<tr,DV,RV>;
  X x; Y y; Flat fx=rndVec(x,tr?rd:cd,g), fy=rndVec(y,tr?cd:rd,g);
  bool ok=true; std::string res="ok";
  try { if(!apply<o>(A,al,x,y)){ missing.insert(std::string(name)+"::"+OPS[o]); return; } } catch(Dune::Exception& e){ res="err"; }
  Flat gx=readVec(x,ok), gy=readVec(y,ok); if(!ok) res="inexact";
  Tab t2; bool ok2=true; Mat<M>::read(A,{},{},0,0,rd,cd,t2,ok2); bool same=ok2&&jsv(t2)==jsv(t);
  out<<Obj().f("kind",std::string("prod")).f("type",std::string(name)).f("op",std::string(OPS[o])).f("tr",tr).f("R",rd.flat()).f("C",cd.flat()).f("A",t).f("al",std::vector<int>{ar,ai})
     .f("x",fx).f("y",fy).f("x2",gx).f("y2",gy).f("same",same).f("out",res).str()<<"\n"; nrec++;
}
// operand of the wrong size: refused, nothing changed
template<int o,class M,class DV,class RV,class K> void bad(const char* name,const M& A,const Dim& rd,const Dim& cd,Rng& g){
  constexpr bool tr=(o!=0&&o!=2&&o!=5&&o!=8);
  using X=std::conditional_t<tr,RV,DV>; using Y=std::conditional_t<tr,DV,RV>;
  if constexpr(requires(X v){ v.resize(1); } && requires(Y v){ v.resize(1); }) {
    Dim dx=tr?rd:cd, dy=tr?cd:rd; bool wx=g.chance(50); Dim& w=wx?dx:dy; bool grow=w.s.empty()||g.chance(50);
    if(grow) { Dim e=w.s.empty()?Dim():w.s[0]; if(w.s.empty()) return; w.s.push_back(e); } else w.s.pop_back();
    X x; Y y; rndVec(x,dx,g); Flat fy=rndVec(y,dy,g); std::string res="ok"; bool ok=true;
    try { if(!apply<o>(A,K(2),x,y)) return; } catch(Dune::Exception&){ res="err"; }
    Flat gy=readVec(y,ok);
    out<<Obj().f("kind",std::string("size")).f("type",std::string(name)).f("op",std::string(OPS[o])).f("wrongx",wx).f("grow",grow).f("y",fy).f("y2",gy).f("out",res).str()<<"\n"; nrec++;
  }
}
template<class T> long sq(T v){ double d=double(v)*double(v); long r=std::llround(d); return std::fabs(d-r)<1e-6*(1+d)?r:-7; }
template<class T> long ex(T v){ double d=double(v); long r=std::llround(d); return std::fabs(d-r)<1e-9*(1+std::fabs(d))?r:-7; }
template<class M> void norms(const char* name,const M& A,const Tab& t){
  out<<Obj().f("kind",std::string("norm")).f("type",std::string(name)).f("A",t).f("f2",ex(A.frobenius_norm2())).f("f",std::is_integral_v<typename M::field_type> ? ex(A.frobenius_norm2()) /* integer type: the root is truncated */ : sq(A.frobenius_norm())).f("inf",ex(A.infinity_norm())).f("infr",ex(A.infinity_norm_real())).str()<<"\n"; nrec++; }
template<class M,class DV,class RV,bool resizable=true> void type(const char* name,Rng& g,int iters,bool square=false){
  using K=typename M::field_type;
  for(int it=0;it<iters;it++){
    Dim rd=Mat<M>::rdim(g,3),cd=square?rd:Mat<M>::cdim(g,3); M A; Tab t; Mat<M>::fill(A,g,rd,cd,{},{},0,0,t);
    Hybrid::forEach(std::make_index_sequence<11>{},[&](auto o){ one<o,M,DV,RV,K>(name,A,t,rd,cd,g); if(resizable&&it%3==0) bad<o,M,DV,RV,K>(name,A,rd,cd,g); });
    norms(name,A,t);
  }
}
// the small instances enumerated by TLC: rows, cols, pattern, operation number
template<class B,class D,class R> void small(const char* name,const std::string& f,Rng& g){
  using K=typename BCRSMatrix<B>::field_type; std::ifstream in(f); int n,m,o,k;
  while(in>>n>>m>>o>>k){ Pat p(n); for(int e=0;e<k;e++){ int i,j; in>>i>>j; p[i].push_back(j); } for(auto& r:p) std::sort(r.begin(),r.end());
    Dim rd,cd; rd.leaf=cd.leaf=false; for(int i=0;i<n;i++) rd.s.push_back(Mat<B>::rdim(g,0)); for(int j=0;j<m;j++) cd.s.push_back(Mat<B>::cdim(g,0));
    BCRSMatrix<B> A; Tab t; Mat<BCRSMatrix<B>>::fillPat(A,g,rd,cd,p,{},{},0,0,t);
    Hybrid::forEach(std::make_index_sequence<11>{},[&](auto oo){ if(oo==o) one<oo,BCRSMatrix<B>,BlockVector<D>,BlockVector<R>,K>(name,A,t,rd,cd,g); }); }
}
int main(int argc,char** argv){
  out.open(argv[1]); Rng g(std::atol(argv[2])); int I=std::atoi(argv[3]); using C=std::complex<double>;
#if PART==0
  small<double,double,double>("bcrs<double>",argv[4],g); small<FieldMatrix<C,2,1>,FieldVector<C,1>,FieldVector<C,2>>("bcrs<c21>",argv[4],g);
  type<BCRSMatrix<C>,BlockVector<C>,BlockVector<C>>("bcrs<complex>",g,I);
  type<BCRSMatrix<FieldMatrix<double,2,3>>,BlockVector<FieldVector<double,3>>,BlockVector<FieldVector<double,2>>>("bcrs<23>",g,I);
  type<BCRSMatrix<BCRSMatrix<double>>,BlockVector<BlockVector<double>>,BlockVector<BlockVector<double>>>("bcrs<bcrs>",g,I);
  type<Matrix<int>,BlockVector<int>,BlockVector<int>>("matrix<int>",g,I);
  type<BDMatrix<FieldMatrix<C,2,2>>,BlockVector<FieldVector<C,2>>,BlockVector<FieldVector<C,2>>>("bd<c22>",g,I,true);
  type<ScaledIdentityMatrix<C,3>,FieldVector<C,3>,FieldVector<C,3>,false>("sid<c3>",g,I);
#endif
#if PART==1
  type<BCRSMatrix<double>,BlockVector<double>,BlockVector<double>>("bcrs<double>",g,I);
  type<BCRSMatrix<FieldMatrix<double,1,1>>,BlockVector<FieldVector<double,1>>,BlockVector<FieldVector<double,1>>>("bcrs<11>",g,I);
  type<BCRSMatrix<DiagonalMatrix<C,2>>,BlockVector<FieldVector<C,2>>,BlockVector<FieldVector<C,2>>>("bcrs<diag>",g,I);
  type<BCRSMatrix<Matrix<FieldMatrix<C,1,2>>>,BlockVector<BlockVector<FieldVector<C,2>>>,BlockVector<BlockVector<FieldVector<C,1>>>>("bcrs<matrix>",g,I);
  type<Matrix<FieldMatrix<C,2,3>>,BlockVector<FieldVector<C,3>>,BlockVector<FieldVector<C,2>>>("matrix<c23>",g,I);
  type<BTDMatrix<FieldMatrix<C,2,2>>,BlockVector<FieldVector<C,2>>,BlockVector<FieldVector<C,2>>>("btd<c22>",g,I,true);
  type<ScaledIdentityMatrix<double,2>,FieldVector<double,2>,FieldVector<double,2>,false>("sid<2>",g,I);
#endif
#if PART==2
  type<BCRSMatrix<int>,BlockVector<int>,BlockVector<int>>("bcrs<int>",g,I);
  type<BCRSMatrix<FieldMatrix<C,2,2>>,BlockVector<FieldVector<C,2>>,BlockVector<FieldVector<C,2>>>("bcrs<c22>",g,I);
  type<BCRSMatrix<ScaledIdentityMatrix<C,2>>,BlockVector<FieldVector<C,2>>,BlockVector<FieldVector<C,2>>>("bcrs<sid>",g,I);
  type<Matrix<double>,BlockVector<double>,BlockVector<double>>("matrix<double>",g,I);
  type<Matrix<BCRSMatrix<FieldMatrix<double,2,1>>>,BlockVector<BlockVector<FieldVector<double,1>>>,BlockVector<BlockVector<FieldVector<double,2>>>>("matrix<bcrs>",g,I);
  type<BTDMatrix<double>,BlockVector<double>,BlockVector<double>>("btd<double>",g,I,true);
#endif
#if PART==3
  using R0=MultiTypeBlockVector<BCRSMatrix<FieldMatrix<C,2,2>>,BCRSMatrix<FieldMatrix<C,2,1>>,Matrix<FieldMatrix<C,2,3>>>;
  using R1=MultiTypeBlockVector<Matrix<FieldMatrix<C,1,2>>,BCRSMatrix<FieldMatrix<C,1,1>>,BCRSMatrix<FieldMatrix<C,1,3>>>;
  using DV=MultiTypeBlockVector<BlockVector<FieldVector<C,2>>,BlockVector<FieldVector<C,1>>,BlockVector<FieldVector<C,3>>>;
  using RV=MultiTypeBlockVector<BlockVector<FieldVector<C,2>>,BlockVector<FieldVector<C,1>>>;
  type<MultiTypeBlockMatrix<R0,R1>,DV,RV,false>("multi<c>",g,I);
  using S0=MultiTypeBlockVector<BCRSMatrix<double>,BCRSMatrix<double>>;
  using SV=MultiTypeBlockVector<BlockVector<double>,BlockVector<double>>;
  type<MultiTypeBlockMatrix<S0,S0,S0>,SV,MultiTypeBlockVector<BlockVector<double>,BlockVector<double>,BlockVector<double>>,false>("multi<double>",g,I);
#endif
  std::cout<<"RECORDS "<<nrec<<"\n"; for(auto& s:missing) std::cout<<"MISSING "<<s<<"\n";
}
