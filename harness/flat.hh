// Random structured matrices and vectors together with their flat description (list of scalar entries with the full
// row/column index paths), generated independently of the library's own traversal functions.
#pragma once
#include "fp.hh"
#include <cmath>
#include <complex>
#include <set>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/common/diagonalmatrix.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/matrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/vbvector.hh>
#include <dune/istl/scaledidmatrix.hh>
#include <dune/istl/bdmatrix.hh>
#include <dune/istl/btdmatrix.hh>
#include <dune/istl/multitypeblockmatrix.hh>
#include <dune/istl/multitypeblockvector.hh>
namespace vt {
using Dune::BCRSMatrix; using Dune::FieldMatrix; using Dune::FieldVector; using Dune::BlockVector;
struct Ent { std::vector<int> rp,cp; int r,c,re,im; std::string json() const { return Obj().f("rp",rp).f("cp",cp).f("r",r).f("c",c).f("re",re).f("im",im).str(); } };
using Tab = std::vector<Ent>;
// nested dimension: leaf (one scalar) or list of dimensions
struct Dim { std::vector<Dim> s; bool leaf=true; int flat() const { if(leaf) return 1; int n=0; for(auto& d:s) n+=d.flat(); return n; } };
inline Dim leaves(int n){ Dim d; d.leaf=false; d.s.resize(n); return d; }
template<class K> struct Sc { static K mk(int re,int){ return K(re); } static bool get(const K& k,int& re,int& im){ im=0; if constexpr(std::is_same_v<K,Fp>){ re=k.v; return true; } else { double d=double(k); re=int(std::llround(d)); return d==re; } } static constexpr bool cx=false; };
template<class T> struct Sc<std::complex<T>> { using K=std::complex<T>; static K mk(int re,int im){ return K(re,im); } static bool get(const K& k,int& re,int& im){ re=int(std::llround(k.real())); im=int(std::llround(k.imag())); return k.real()==re&&k.imag()==im; } static constexpr bool cx=true; };
// scalar values: complex ones have integer modulus
template<class K> K rnd(Rng& g,int& re,int& im){ static const int C[][2]={{0,0},{1,0},{0,1},{-2,0},{0,-3},{3,4},{-3,4},{4,-3},{-4,-3},{2,0},{0,5}};
  if constexpr(Sc<K>::cx){ int i=g.below(11); re=C[i][0]; im=C[i][1]; } else { re=g.in(-4,5); im=0; } return Sc<K>::mk(re,im); }
template<class K> K rndInv(Rng& g,int& re,int& im){ K k; do k=rnd<K>(g,re,im); while(re==0&&im==0); return k; }

// ---- matrices
template<class B> struct Mat { // scalar
  static constexpr int rows=0;
  static Dim rdim(Rng&,int){ return Dim(); } static Dim cdim(Rng&,int){ return Dim(); }
  static void fill(B& b,Rng& g,const Dim&,const Dim&,std::vector<int> rp,std::vector<int> cp,int r,int c,Tab& t){ Ent e; b=rnd<B>(g,e.re,e.im); e.rp=rp; e.cp=cp; e.r=r; e.c=c; t.push_back(e); }
  static void read(const B& b,std::vector<int> rp,std::vector<int> cp,int r,int c,const Dim&,const Dim&,Tab& t,bool& ok){ Ent e; ok&=Sc<B>::get(b,e.re,e.im); e.rp=rp; e.cp=cp; e.r=r; e.c=c; t.push_back(e); }
};
inline std::vector<int> ap(std::vector<int> p,int i){ p.push_back(i); return p; }
inline std::vector<int> offs(const Dim& d){ std::vector<int> o(1,0); for(auto& x:d.s) o.push_back(o.back()+x.flat()); return o; }
template<class K,int n,int m> struct Mat<FieldMatrix<K,n,m>> { using B=FieldMatrix<K,n,m>;
  static Dim rdim(Rng&,int){ return leaves(n); } static Dim cdim(Rng&,int){ return leaves(m); }
  static void fill(B& b,Rng& g,const Dim&,const Dim&,std::vector<int> rp,std::vector<int> cp,int r,int c,Tab& t){ for(int i=0;i<n;i++) for(int j=0;j<m;j++) Mat<K>::fill(b[i][j],g,Dim(),Dim(),ap(rp,i),ap(cp,j),r+i,c+j,t); }
  static void read(const B& b,std::vector<int> rp,std::vector<int> cp,int r,int c,const Dim&,const Dim&,Tab& t,bool& ok){ for(int i=0;i<n;i++) for(int j=0;j<m;j++) Mat<K>::read(b[i][j],ap(rp,i),ap(cp,j),r+i,c+j,Dim(),Dim(),t,ok); } };
template<class K,int n> struct Mat<Dune::DiagonalMatrix<K,n>> { using B=Dune::DiagonalMatrix<K,n>;
  static Dim rdim(Rng&,int){ return leaves(n); } static Dim cdim(Rng&,int){ return leaves(n); }
  static void fill(B& b,Rng& g,const Dim&,const Dim&,std::vector<int> rp,std::vector<int> cp,int r,int c,Tab& t){ for(int i=0;i<n;i++) Mat<K>::fill(b.diagonal()[i],g,Dim(),Dim(),ap(rp,i),ap(cp,i),r+i,c+i,t); }
  static void read(const B& b,std::vector<int> rp,std::vector<int> cp,int r,int c,const Dim&,const Dim&,Tab& t,bool& ok){ for(int i=0;i<n;i++) Mat<K>::read(b.diagonal()[i],ap(rp,i),ap(cp,i),r+i,c+i,Dim(),Dim(),t,ok); } };
template<class K,int n> struct Mat<Dune::ScaledIdentityMatrix<K,n>> { using B=Dune::ScaledIdentityMatrix<K,n>;
  static Dim rdim(Rng&,int){ return leaves(n); } static Dim cdim(Rng&,int){ return leaves(n); }
  static void fill(B& b,Rng& g,const Dim&,const Dim&,std::vector<int> rp,std::vector<int> cp,int r,int c,Tab& t){ Ent e; K k=rnd<K>(g,e.re,e.im); b=k; for(int i=0;i<n;i++){ e.rp=ap(rp,i); e.cp=ap(cp,i); e.r=r+i; e.c=c+i; t.push_back(e);} }
  static void read(const B& b,std::vector<int> rp,std::vector<int> cp,int r,int c,const Dim&,const Dim&,Tab& t,bool& ok){ for(int i=0;i<n;i++) Mat<K>::read(b.scalar(),ap(rp,i),ap(cp,i),r+i,c+i,Dim(),Dim(),t,ok); } };
template<class B> Dim dynDim(Rng& g,int maxn,bool row){ Dim d; d.leaf=false; int n=g.in(0,maxn); for(int i=0;i<n;i++) d.s.push_back(row?Mat<B>::rdim(g,2):Mat<B>::cdim(g,2)); return d; }
using Pat = std::vector<std::vector<int>>;
inline Pat rndPat(Rng& g,int n,int m){ Pat p(n); int dens=g.in(0,100); for(int i=0;i<n;i++) for(int j=0;j<m;j++) if(g.below(100)<dens) p[i].push_back(j); return p; }
template<class B> void buildBCRS(BCRSMatrix<B>& A,int n,int m,const Pat& p,int how){
  using M=BCRSMatrix<B>; if(A.buildStage()!=M::notAllocated){ A.~M(); new(&A) M; }
  if(how==0){ A.setBuildMode(M::random); A.setSize(n,m); for(int i=0;i<n;i++) A.setrowsize(i,p[i].size()); A.endrowsizes(); for(int i=0;i<n;i++) for(auto it=p[i].rbegin();it!=p[i].rend();++it) A.addindex(i,*it); A.endindices(); }
  else if(how==1){ A.setBuildMode(M::row_wise); A.setSize(n,m); for(auto r=A.createbegin();r!=A.createend();++r) for(int j:p[r.index()]) r.insert(j); }
  else { A.setBuildMode(M::implicit); A.setImplicitBuildModeParameters(2,4.0); A.setSize(n,m); for(int i=0;i<n;i++) for(int j:p[i]) A.entry(i,j); A.compress(); }
}
template<class B> struct Mat<BCRSMatrix<B>> { using M=BCRSMatrix<B>;
  static Dim rdim(Rng& g,int mx){ return dynDim<B>(g,mx,true); } static Dim cdim(Rng& g,int mx){ return dynDim<B>(g,mx,false); }
  static void fillPat(M& A,Rng& g,const Dim& rd,const Dim& cd,const Pat& p,std::vector<int> rp,std::vector<int> cp,int r,int c,Tab& t){
    int n=rd.s.size(),m=cd.s.size(); buildBCRS(A,n,m,p,n?g.below(3):1); auto ro=offs(rd),co=offs(cd);
    for(int i=0;i<n;i++) for(int j:p[i]) Mat<B>::fill(A[i][j],g,rd.s[i],cd.s[j],ap(rp,i),ap(cp,j),r+ro[i],c+co[j],t); }
  static void fill(M& A,Rng& g,const Dim& rd,const Dim& cd,std::vector<int> rp,std::vector<int> cp,int r,int c,Tab& t){ fillPat(A,g,rd,cd,rndPat(g,rd.s.size(),cd.s.size()),rp,cp,r,c,t); }
  static void read(const M& A,std::vector<int> rp,std::vector<int> cp,int r,int c,const Dim& rd,const Dim& cd,Tab& t,bool& ok){ auto ro=offs(rd),co=offs(cd);
    ok&=A.N()==rd.s.size()&&A.M()==cd.s.size(); if(!ok) return;
    for(auto i=A.begin();i!=A.end();++i) for(auto j=i->begin();j!=i->end();++j) Mat<B>::read(*j,ap(rp,i.index()),ap(cp,j.index()),r+ro[i.index()],c+co[j.index()],rd.s[i.index()],cd.s[j.index()],t,ok); } };
template<class B,bool tri> struct MatDiag { template<class M> static void fill(M& A,Rng& g,const Dim& rd,std::vector<int> rp,std::vector<int> cp,int r,int c,Tab& t){ int n=rd.s.size(); auto o=offs(rd);
    for(int i=0;i<n;i++) for(int j=std::max(0,i-tri);j<=std::min(n-1,i+tri);j++) Mat<B>::fill(A[i][j],g,rd.s[i],rd.s[j],ap(rp,i),ap(cp,j),r+o[i],c+o[j],t); } };
template<class B> struct Mat<Dune::BDMatrix<B>> { using M=Dune::BDMatrix<B>;
  static Dim rdim(Rng& g,int mx){ return dynDim<B>(g,mx,true); } static Dim cdim(Rng& g,int mx){ return dynDim<B>(g,mx,false); }
  static void fill(M& A,Rng& g,const Dim& rd,const Dim& cd,std::vector<int> rp,std::vector<int> cp,int r,int c,Tab& t){ A=M(int(rd.s.size())); MatDiag<B,false>::fill(A,g,rd,rp,cp,r,c,t); }
  static void read(const M& A,std::vector<int> rp,std::vector<int> cp,int r,int c,const Dim& rd,const Dim& cd,Tab& t,bool& ok){ Mat<BCRSMatrix<B>>::read(A,rp,cp,r,c,rd,cd,t,ok); } };
template<class B> struct Mat<Dune::BTDMatrix<B>> { using M=Dune::BTDMatrix<B>;
  static Dim rdim(Rng& g,int mx){ return dynDim<B>(g,mx,true); } static Dim cdim(Rng& g,int mx){ return dynDim<B>(g,mx,false); }
  static void fill(M& A,Rng& g,const Dim& rd,const Dim& cd,std::vector<int> rp,std::vector<int> cp,int r,int c,Tab& t){ A=M(int(rd.s.size())); MatDiag<B,true>::fill(A,g,rd,rp,cp,r,c,t); }
  static void read(const M& A,std::vector<int> rp,std::vector<int> cp,int r,int c,const Dim& rd,const Dim& cd,Tab& t,bool& ok){ Mat<BCRSMatrix<B>>::read(A,rp,cp,r,c,rd,cd,t,ok); } };
template<class B> struct Mat<Dune::Matrix<B>> { using M=Dune::Matrix<B>;
  static Dim rdim(Rng& g,int mx){ return dynDim<B>(g,mx,true); } static Dim cdim(Rng& g,int mx){ return dynDim<B>(g,mx,false); }
  static void fill(M& A,Rng& g,const Dim& rd,const Dim& cd,std::vector<int> rp,std::vector<int> cp,int r,int c,Tab& t){ int n=rd.s.size(),m=cd.s.size(); if(g.chance(50)) A=M(n,m); else A.setSize(n,m); auto ro=offs(rd),co=offs(cd);
    for(int i=0;i<n;i++) for(int j=0;j<m;j++) Mat<B>::fill(A[i][j],g,rd.s[i],cd.s[j],ap(rp,i),ap(cp,j),r+ro[i],c+co[j],t); }
  static void read(const M& A,std::vector<int> rp,std::vector<int> cp,int r,int c,const Dim& rd,const Dim& cd,Tab& t,bool& ok){ auto ro=offs(rd),co=offs(cd); ok&=A.N()==rd.s.size()&&A.M()==cd.s.size(); if(!ok) return;
    for(std::size_t i=0;i<A.N();i++) for(std::size_t j=0;j<A.M();j++) Mat<B>::read(A[i][j],ap(rp,i),ap(cp,j),r+ro[i],c+co[j],rd.s[i],cd.s[j],t,ok); } };
template<class... Rows> struct Mat<Dune::MultiTypeBlockMatrix<Rows...>> { using M=Dune::MultiTypeBlockMatrix<Rows...>;
  using Row0=std::tuple_element_t<0,std::tuple<Rows...>>; static constexpr int nr=sizeof...(Rows), nc=Row0::size();
  static Dim rdim(Rng& g,int mx){ Dim d; d.leaf=false; Dune::Hybrid::forEach(std::make_index_sequence<nr>{},[&](auto i){ using B=std::decay_t<decltype(std::declval<M&>()[i][Dune::Indices::_0])>; d.s.push_back(Mat<B>::rdim(g,mx)); }); return d; }
  static Dim cdim(Rng& g,int mx){ Dim d; d.leaf=false; Dune::Hybrid::forEach(std::make_index_sequence<nc>{},[&](auto j){ using B=std::decay_t<decltype(std::declval<M&>()[Dune::Indices::_0][j])>; d.s.push_back(Mat<B>::cdim(g,mx)); }); return d; }
  static void fill(M& A,Rng& g,const Dim& rd,const Dim& cd,std::vector<int> rp,std::vector<int> cp,int r,int c,Tab& t){ auto ro=offs(rd),co=offs(cd);
    Dune::Hybrid::forEach(std::make_index_sequence<nr>{},[&](auto i){ Dune::Hybrid::forEach(std::make_index_sequence<nc>{},[&](auto j){ using B=std::decay_t<decltype(A[i][j])>; Mat<B>::fill(A[i][j],g,rd.s[i],cd.s[j],ap(rp,i),ap(cp,j),r+ro[i],c+co[j],t); }); }); }
  static void read(const M& A,std::vector<int> rp,std::vector<int> cp,int r,int c,const Dim& rd,const Dim& cd,Tab& t,bool& ok){ auto ro=offs(rd),co=offs(cd);
    Dune::Hybrid::forEach(std::make_index_sequence<nr>{},[&](auto i){ Dune::Hybrid::forEach(std::make_index_sequence<nc>{},[&](auto j){ using B=std::decay_t<decltype(A[i][j])>; Mat<B>::read(A[i][j],ap(rp,i),ap(cp,j),r+ro[i],c+co[j],rd.s[i],cd.s[j],t,ok); }); }); } };
// ---- vectors: sized by a Dim, values written/read in flat order
template<class V> struct Vec { static void size(V&,const Dim&){} template<class F> static void each(V& v,F&& f){ f(v); } };
template<class K,int n> struct Vec<FieldVector<K,n>> { using V=FieldVector<K,n>; static void size(V&,const Dim&){} template<class F> static void each(V& v,F&& f){ for(int i=0;i<n;i++) f(v[i]); } };
template<class B> struct Vec<BlockVector<B>> { using V=BlockVector<B>; static void size(V& v,const Dim& d){ v.resize(d.s.size()); for(std::size_t i=0;i<d.s.size();i++) Vec<B>::size(v[i],d.s[i]); } template<class F> static void each(V& v,F&& f){ for(std::size_t i=0;i<v.size();i++) Vec<B>::each(v[i],f); } };
template<class... B> struct Vec<Dune::MultiTypeBlockVector<B...>> { using V=Dune::MultiTypeBlockVector<B...>; static void size(V& v,const Dim& d){ Dune::Hybrid::forEach(std::make_index_sequence<sizeof...(B)>{},[&](auto i){ using X=std::decay_t<decltype(v[i])>; Vec<X>::size(v[i],d.s[i]); }); }
  template<class F> static void each(V& v,F&& f){ Dune::Hybrid::forEach(std::make_index_sequence<sizeof...(B)>{},[&](auto i){ using X=std::decay_t<decltype(v[i])>; Vec<X>::each(v[i],f); }); } };
using Flat = std::vector<std::vector<int>>;
template<class V> Flat readVec(const V& v,bool& ok){ Flat r; Vec<V>::each(const_cast<V&>(v),[&](auto& k){ int a,b; ok&=Sc<std::decay_t<decltype(k)>>::get(k,a,b); r.push_back({a,b}); }); return r; }
template<class V> Flat rndVec(V& v,const Dim& d,Rng& g){ Vec<V>::size(v,d); Flat r; Vec<V>::each(v,[&](auto& k){ int a,b; k=rnd<std::decay_t<decltype(k)>>(g,a,b); r.push_back({a,b}); }); return r; }
}
