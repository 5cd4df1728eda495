// P05: vector arithmetic, products and norms of every vector type; records for spec/VecAlg.tla
#define DUNE_ISTL_WITH_CHECKING 1
#include "config.h"
#include "flat.hh"
#include <fstream>
#include <limits>
namespace vt {
template<class B> struct Vec<Dune::VariableBlockVector<B>> { using V=Dune::VariableBlockVector<B>; static void size(V& v,const Dim& d){ v=V(d.s.size()); std::size_t k=0; for(auto c=v.createbegin();c!=v.createend();++c,++k) c.setblocksize(d.s[k].s.size()); }
  template<class F> static void each(V& v,F&& f){ for(std::size_t i=0;i<v.N();i++) for(std::size_t j=0;j<v[i].size();++j) Vec<B>::each(v[i][j],f); } };
// random dimensions of a vector type
template<class V> struct RD { static Dim make(Rng&){ return Dim(); } };
template<class K,int n> struct RD<FieldVector<K,n>>{ static Dim make(Rng&){ return leaves(n); } };
template<class B> struct RD<BlockVector<B>>{ static Dim make(Rng& g){ Dim d; d.leaf=false; int n=g.in(0,4); for(int i=0;i<n;i++) d.s.push_back(RD<B>::make(g)); return d; } };
template<class B> struct RD<Dune::VariableBlockVector<B>>{ static Dim make(Rng& g){ Dim d; d.leaf=false; int n=g.in(0,4); for(int i=0;i<n;i++) d.s.push_back(RD<BlockVector<B>>::make(g)); return d; } };
template<class... B> struct RD<Dune::MultiTypeBlockVector<B...>>{ static Dim make(Rng& g){ Dim d; d.leaf=false; (d.s.push_back(RD<B>::make(g)),...); return d; } };
}
using namespace vt; using namespace Dune;
static std::ofstream out;
template<class T> long ex(T v){ double d=double(v); long r=std::llround(d); return std::fabs(d-r)<1e-9*(1+std::fabs(d))?r:-7; }
template<class T> long sq(T v){ double d=double(v)*double(v); long r=std::llround(d); return std::fabs(d-r)<1e-6*(1+d)?r:-7; }
template<class V> void type(const char* name,Rng& g,int iters){
  using K=typename V::field_type; static const char* OPS[]={"add","sub","axpy","scale","muldiv","set","copy","dot","dotT","norms","nan"};
  for(int it=0;it<iters;it++) for(int o=0;o<11;o++){
    Dim d=RD<V>::make(g); V x,y; Flat fx=rndVec(x,d,g), fy=rndVec(y,d,g); int ar,ai; K al=rndInv<K>(g,ar,ai); K s(0); std::vector<long> n; std::string res="ok"; bool ok=true; std::string op=OPS[o];
    if(op=="nan"&&fx.empty()) continue;
    try{
      if(o==0) x+=y; else if(o==1) x-=y; else if(o==2) x.axpy(al,y); else if(o==3) x*=al; else if(o==4){ x*=al; x/=al; } else if(o==5) x=al;
      else if(o==6){ V z(y); x=z; z=K(0); } else if(o==7) s=x.dot(y); else if(o==8) s=x*y;
      else if(o==9) n={ex(x.one_norm()),ex(x.one_norm_real()),ex(x.two_norm2()),sq(x.two_norm()),ex(x.infinity_norm()),ex(x.infinity_norm_real()),(long)x.dim()};
      else { int p=g.below(fx.size()),k=0; V z(x); Vec<V>::each(z,[&](auto& e){ if(k++==p) e=std::decay_t<decltype(e)>(std::numeric_limits<double>::quiet_NaN()); });
        auto N=[](double q){ return q!=q?1L:0L; }; n={N(z.one_norm()),N(z.one_norm_real()),N(z.two_norm2()),N(z.two_norm()),N(z.infinity_norm()),N(z.infinity_norm_real())}; }
    } catch(Dune::Exception& e){ res="err"; }
    int sr,si; ok&=Sc<K>::get(s,sr,si); Flat gx=readVec(x,ok), gy=readVec(y,ok); if(!ok) res="inexact";
    out<<Obj().f("type",std::string(name)).f("op",op).f("al",std::vector<int>{ar,ai}).f("x",fx).f("y",fy).f("x2",gx).f("y2",gy).f("s",std::vector<int>{sr,si}).f("n",n).f("out",res).str()<<"\n";
  } }
int main(int,char** argv){
  out.open(argv[1]); Rng g(std::atol(argv[2])); int I=std::atoi(argv[3]); using C=std::complex<double>;
  type<BlockVector<double>>("bv<double>",g,I); type<BlockVector<C>>("bv<complex>",g,I); type<BlockVector<FieldVector<double,3>>>("bv<f3>",g,I); type<BlockVector<FieldVector<C,2>>>("bv<c2>",g,I);
  type<BlockVector<BlockVector<FieldVector<C,1>>>>("bv<bv<c1>>",g,I); type<BlockVector<BlockVector<double>>>("bv<bv<double>>",g,I);
  type<VariableBlockVector<C>>("vbv<complex>",g,I); type<VariableBlockVector<FieldVector<C,2>>>("vbv<c2>",g,I);
  type<MultiTypeBlockVector<BlockVector<FieldVector<double,1>>,BlockVector<FieldVector<double,2>>>>("mt<1,2>",g,I);
  type<MultiTypeBlockVector<BlockVector<C>,FieldVector<C,2>,BlockVector<FieldVector<C,2>>>>("mt<complex>",g,I);
  type<MultiTypeBlockVector<MultiTypeBlockVector<BlockVector<double>,FieldVector<double,1>>,BlockVector<BlockVector<double>>>>("mt<mt>",g,I);
  type<BlockVector<MultiTypeBlockVector<FieldVector<C,1>,FieldVector<C,2>>>>("bv<mt>",g,I);
  std::cout<<"RECORDS"<<std::endl; }
