// Reads, writes and stores Matrix Market files.  Commands: one per line on stdin; one JSON line per command on the output file.
#include <config.h>
#include "fp.hh"
#include <cmath>
#include <cstdio>
#include <fstream>
#include <map>
#include <set>
#include <dune/common/parallel/mpihelper.hh>
#include <dune/common/simd/loop.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/matrixmarket.hh>
using namespace Dune; using vt::Rng; using vt::Obj;
constexpr int U=8; using Cx=std::complex<double>;
template<class K> struct N { static constexpr bool cx=false; static bool get(const K& k,long& a,long& b){ double d=double(k)*U; a=std::llround(d); b=0; return d==double(a); } static K mk(long a,long){ return K(double(a)/U); } static std::string s(const K& k,int p){ char c[64]; std::snprintf(c,64,"%.*e",p,double(k)); return c; } static K rnd(Rng& g){ double m=double(g.in(-1000000000,1000000000))*double(g.in(1,1000003)); return g.chance(10)?K(0):K(std::ldexp(m,int(g.in(-90,40)))); } static const char* field(){ return std::is_same_v<K,int>?"integer":"real"; } };
template<class T> struct N<std::complex<T>> { using K=std::complex<T>; static constexpr bool cx=true; static bool get(const K& k,long& a,long& b){ long z; return N<T>::get(k.real(),a,z)&&N<T>::get(k.imag(),b,z); } static K mk(long a,long b){ return K(T(double(a)/U),T(double(b)/U)); } static std::string s(const K& k,int p){ return N<T>::s(k.real(),p)+"|"+N<T>::s(k.imag(),p); } static K rnd(Rng& g){ return K(N<T>::rnd(g),N<T>::rnd(g)); } static const char* field(){ return "complex"; } };
template<class B> struct Sh { static constexpr int r=1,c=1; using K=B; static K& at(B& b,int,int){ return b; } };
template<class T,int n,int m> struct Sh<FieldMatrix<T,n,m>> { static constexpr int r=n,c=m; using K=T; static K& at(FieldMatrix<T,n,m>& b,int i,int j){ return b[i][j]; } };
template<class T,int n> struct Sh<FieldVector<T,n>> { static constexpr int r=n,c=1; using K=T; static K& at(FieldVector<T,n>& b,int i,int){ return b[i]; } };
std::string jp(const std::vector<std::vector<int>>& c){ std::string r="["; for(std::size_t i=0;i<c.size();++i) r+=(i?",":"")+vt::js(c[i]); return r+"]"; }
using L4=std::vector<std::vector<long>>; std::string jl(const L4& c){ std::string r="["; for(std::size_t i=0;i<c.size();++i) r+=(i?",":"")+vt::js(c[i]); return r+"]"; }
template<class M> void desc(M& a,Obj& o,bool& exact){ using S=Sh<typename M::block_type>; std::vector<std::vector<int>> p(a.N()); L4 v;
  for(auto i=a.begin();i!=a.end();++i) for(auto e=i->begin();e!=i->end();++e){ p[i.index()].push_back(int(e.index())); for(int r=0;r<S::r;++r) for(int c=0;c<S::c;++c){ long x,y; exact&=N<typename S::K>::get(S::at(*e,r,c),x,y); if(x||y) v.push_back({long(i.index())*S::r+r+1,long(e.index())*S::c+c+1,x,y}); } }
  o.f("N",a.N()).f("M",a.M()).raw("pat",jp(p)).raw("vals",jl(v)).f("nnz",a.nonzeroes()); }
template<class X> std::string strs(X& x,int p){ std::vector<std::string> r; if constexpr(requires{ x.nonzeroes(); }){ using S=Sh<typename X::block_type>; for(auto i=x.begin();i!=x.end();++i) for(auto e=i->begin();e!=i->end();++e) for(int a=0;a<S::r;++a) for(int b=0;b<S::c;++b) r.push_back(std::to_string(i.index()*S::r+a)+","+std::to_string(e.index()*S::c+b)+":"+N<typename S::K>::s(S::at(*e,a,b),p)); } else { using S=Sh<typename X::block_type>; for(auto& e:x) for(int a=0;a<S::r;++a){ auto& k=S::at(e,a,0); for(std::size_t l=0;l<Simd::lanes(k);++l) r.push_back(N<Simd::Scalar<typename S::K>>::s(Simd::lane(l,k),p)); } } return vt::js(r); }
std::string sizes(std::size_t a,std::size_t b){ return "["+std::to_string(a)+","+std::to_string(b)+"]"; }
template<class M> void build(M& a,Rng& g,bool exact,int n,int m){ using S=Sh<typename M::block_type>; int dens=int(g.in(0,100)); a.setBuildMode(M::row_wise); a.setSize(n,m); for(auto r=a.createbegin();r!=a.createend();++r) for(int j=0;j<m;++j) if(g.chance(dens)) r.insert(j);
  for(auto i=a.begin();i!=a.end();++i) for(auto e=i->begin();e!=i->end();++e) for(int r=0;r<S::r;++r) for(int c=0;c<S::c;++c) S::at(*e,r,c)= exact? N<typename S::K>::mk(g.in(-99,99)*(std::is_same_v<typename S::K,int>?U:1),g.in(-99,99)) : N<typename S::K>::rnd(g); }
template<class V> void fillv(V& v,Rng& g,bool exact){ using S=Sh<typename V::block_type>; for(auto& e:v) for(int r=0;r<S::r;++r){ auto& k=S::at(e,r,0); for(std::size_t l=0;l<Simd::lanes(k);++l) Simd::lane(l,k)= exact? N<Simd::Scalar<typename S::K>>::mk(g.in(-99,99)*(std::is_same_v<typename S::K,int>?U:1),g.in(-99,99)) : N<Simd::Scalar<typename S::K>>::rnd(g); } }
template<class V> void descv(V& v,Obj& o,bool& exact){ using S=Sh<typename V::block_type>; L4 w; std::size_t lanes=Simd::lanes<typename S::K>(); for(std::size_t l=0;l<lanes;++l) for(auto& e:v) for(int r=0;r<S::r;++r){ long a,b; exact&=N<Simd::Scalar<typename S::K>>::get(Simd::lane(l,S::at(e,r,0)),a,b); w.push_back({a,b}); } o.f("N",v.size()).raw("vals",jl(w)); }
template<class X> std::string target(){ using S=Sh<typename X::block_type>; return Obj().f("br",S::r).f("bc",S::c).f("cplx",N<Simd::Scalar<typename S::K>>::cx).f("lanes",int(Simd::lanes<typename S::K>())).f("field",std::string(N<Simd::Scalar<typename S::K>>::field())).str(); }
template<class X> constexpr bool isMat=requires(X x){ x.nonzeroes(); };
// a non-empty object to read into
template<class X> void old(X& x,Rng& g){ if constexpr(isMat<X>){ if(g.chance(30)){ build(x,g,true,2,3); } } else x.resize(g.below(3)); }
template<class X> std::string cmd(const std::string& c,const std::string& file,long seed){ Rng g(seed); Obj o; o.raw("target",target<X>()).f("file",file);
  if(c=="read"||c=="readv"){ X x; old(x,g); o.f("kind",c); std::string st="ok"; try { if(g.chance(50)) loadMatrixMarket(x,file+(g.chance(50)?".mm":"")); else { std::ifstream f(file+".mm"); readMatrixMarket(x,f); } } catch(Dune::Exception& e){ st="err"; }
    o.f("out",st); if(st=="ok"){ bool exact=true; if constexpr(isMat<X>) desc(x,o,exact); else descv(x,o,exact); if(!exact) o.f("inexact",true); } return o.str(); }
  if(c=="write"||c=="writev"){ o.f("kind",c); bool ex=true; std::ofstream f(file+".mm"); if constexpr(isMat<X>){ X x; build(x,g,true,int(g.below(4)),int(g.below(5))); writeMatrixMarket(x,f); desc(x,o,ex); } else { X x(g.below(5)); fillv(x,g,true); writeMatrixMarket(x,f); descv(x,o,ex); } o.f("field",std::string(N<Simd::Scalar<typename X::field_type>>::field())); return o.str(); }
  // store and load with a precision
  int prec=int(g.in(0,17)); std::string ext=g.chance(30)?".mtx":g.chance(30)?".mm":""; X x,y; old(y,g); o.f("kind",std::string("round")).f("prec",prec); std::string err; int shown=prec>0?prec:6; int p=prec==17?17:shown;
  if constexpr(isMat<X>) build(x,g,false,int(g.below(4)),int(g.below(5))); else { x.resize(g.below(5)); fillv(x,g,false); }
  try { if(prec) storeMatrixMarket(x,file+ext,prec); else storeMatrixMarket(x,file+ext); loadMatrixMarket(y,file+(g.chance(50)?ext:ext==".mtx"?ext:"")); } catch(Dune::Exception& e){ err=e.what(); }
  if constexpr(isMat<X>) o.raw("sizes",sizes(x.N(),x.M())).raw("sizes2",sizes(y.N(),y.M())); else o.raw("sizes",sizes(x.size(),0)).raw("sizes2",sizes(y.size(),0));
  o.raw("a",strs(x,p)).raw("b",strs(y,p)).f("err",err); return o.str(); }
// ---- distributed
template<class M,class V> std::string par(const std::string& file,long seed,MPI_Comm mc){ using Comm=OwnerOverlapCopyCommunication<int>; Comm c(mc),c2(mc); int rank=c.communicator().rank(),np=c.communicator().size(); Rng gg(seed); int ng=int(gg.in(0,7)); using LI=Comm::ParallelIndexSet::LocalIndex; using OS=OwnerOverlapCopyAttributeSet;
  std::vector<std::pair<int,int>> mine; for(int i=0;i<ng;++i){ int owner=int(gg.below(np)); int id=int(i*3+gg.below(3)); for(int p=0;p<np;++p){ int a=0; if(p==owner) a=OS::owner; else if(gg.chance(50)) a=gg.chance(50)?OS::overlap:OS::copy; if(p==rank&&a) mine.push_back({id,a}); } }
  Rng g(seed*31+rank+1); int n=int(mine.size()); std::vector<int> loc(n); for(int i=0;i<n;++i) loc[i]=i; for(int i=n-1;i>0;--i) std::swap(loc[i],loc[g.below(i+1)]);
  auto& pis=c.indexSet(); pis.beginResize(); for(int i=0;i<n;++i) pis.add(mine[i].first,LI(loc[i],OS::AttributeSet(mine[i].second),g.chance(80))); pis.endResize(); c.remoteIndices().template rebuild<false>();
  { std::set<int> nb; for(auto i=c.remoteIndices().begin();i!=c.remoteIndices().end();++i) if(i->first!=rank) nb.insert(i->first); int h=!nb.empty(); h=c.communicator().min(h); if(h&&gg.chance(50)) c.remoteIndices().setNeighbours(nb); }
  M a,a2; build(a,g,false,n,n); V v(n),v2; fillv(v,g,false); std::string err; std::string ext=gg.chance(30)?".mtx":gg.chance(30)?".mm":"";
  try { storeMatrixMarket(a,file+ext,c,true,17); storeMatrixMarket(v,file+"v"+ext,c,false,17); MPI_Barrier(mc); loadMatrixMarket(a2,file+ext,c2,true); loadMatrixMarket(v2,file+"v"+(gg.chance(50)?"":ext),c2,false); } catch(Dune::Exception& e){ err=e.what(); }
  auto idx=[&](Comm& k){ std::vector<std::string> r; for(auto& i:k.indexSet()) r.push_back(std::to_string(i.global())+","+std::to_string(i.local().local())+","+std::to_string(int(i.local().attribute()))+","+std::to_string(i.local().isPublic())); return vt::js(r); };
  auto nb=[&](Comm& k){ std::vector<int> r; for(auto i=k.remoteIndices().begin();i!=k.remoteIndices().end();++i) r.push_back(i->first); r.push_back(-1); for(int i:k.remoteIndices().getNeighbours()) r.push_back(i); return vt::js(r); };
  auto com=[&](Comm& k){ V w(n); fillv(w,g,true); for(auto& e:w) e=1000+rank; try { k.copyOwnerToAll(w,w); } catch(Dune::Exception& e){} return strs(w,3); };
  Obj o; o.f("kind",std::string("par")).f("rank",rank).f("np",np).f("file",file).raw("target",target<M>()); o.raw("a","["+strs(a,17)+","+strs(v,17)+"]").raw("b","["+strs(a2,17)+","+strs(v2,17)+"]").raw("idx",idx(c)).raw("idx2",idx(c2)).raw("nb",nb(c)).raw("nb2",nb(c2)); auto c1=com(c); auto k2=com(c2); o.raw("comm",c1).raw("comm2",k2).f("err",err); return o.str(); }
template<class T> using FM=BCRSMatrix<T>; template<class T> using BV=BlockVector<T>;
int main(int argc,char** argv){ MPIHelper::instance(argc,argv); 
  if(std::string(argv[1])=="par"){ int rank; MPI_Comm_rank(MPI_COMM_WORLD,&rank); std::ofstream out(std::string(argv[2])+"."+std::to_string(rank)); long seed=std::stol(argv[3]); int n=std::stoi(argv[4]);
    for(int k=0;k<n;++k){ std::string f=std::string(argv[2])+"-f"+std::to_string(k); long s=seed*1000+k; std::string r; if(k%3==0) r=par<BCRSMatrix<double>,BlockVector<double>>(f,s,MPI_COMM_WORLD); else if(k%3==1) r=par<BCRSMatrix<FieldMatrix<double,2,2>>,BlockVector<FieldVector<double,2>>>(f,s,MPI_COMM_WORLD); else r=par<BCRSMatrix<FieldMatrix<Cx,1,1>>,BlockVector<FieldVector<Cx,1>>>(f,s,MPI_COMM_WORLD); out<<r<<"\n"; out.flush(); MPI_Barrier(MPI_COMM_WORLD); }
    if(rank==0) std::cout<<"RECORDS"<<std::endl; return 0; }
  std::map<std::string,std::string(*)(const std::string&,const std::string&,long)> T={
    {"d",cmd<BCRSMatrix<double>>},{"f",cmd<BCRSMatrix<float>>},{"i",cmd<BCRSMatrix<int>>},{"z",cmd<BCRSMatrix<Cx>>},{"d11",cmd<BCRSMatrix<FieldMatrix<double,1,1>>>},{"d22",cmd<BCRSMatrix<FieldMatrix<double,2,2>>>},{"d21",cmd<BCRSMatrix<FieldMatrix<double,2,1>>>},{"d13",cmd<BCRSMatrix<FieldMatrix<double,1,3>>>},{"d32",cmd<BCRSMatrix<FieldMatrix<double,3,2>>>},{"z22",cmd<BCRSMatrix<FieldMatrix<Cx,2,2>>>},{"z12",cmd<BCRSMatrix<FieldMatrix<Cx,1,2>>>},{"zf",cmd<BCRSMatrix<std::complex<float>>>},
    {"vd",cmd<BlockVector<double>>},{"vi",cmd<BlockVector<int>>},{"vz",cmd<BlockVector<Cx>>},{"vd1",cmd<BlockVector<FieldVector<double,1>>>},{"vd2",cmd<BlockVector<FieldVector<double,2>>>},{"vd3",cmd<BlockVector<FieldVector<double,3>>>},{"vz2",cmd<BlockVector<FieldVector<Cx,2>>>},{"vs4",cmd<BlockVector<LoopSIMD<double,4>>>},{"vs42",cmd<BlockVector<FieldVector<LoopSIMD<double,4>,2>>>} };
  std::ofstream out(argv[2]); std::ifstream in(argv[1]); std::string c,t,f; long s; while(in>>c>>t>>f>>s){ out<<T.at(t)(c,f,s)<<"\n"; out.flush(); } std::cout<<"RECORDS"<<std::endl; }
