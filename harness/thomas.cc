// Records histories of block tridiagonal / block diagonal matrices over GF(30011^2), their solves, and scaled identity blocks.
#include <config.h>
#include "fp2.hh"
#include <fstream>
#include <memory>
#include <dune/common/diagonalmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/btdmatrix.hh>
#include <dune/istl/bdmatrix.hh>
#include <dune/istl/scaledidmatrix.hh>
using namespace Dune; using vt::Fp2; using vt::Fp; using vt::Rng; using vt::Obj;
std::ofstream out;
using Dense=std::vector<std::vector<Fp2>>;
template<class B> struct E { static constexpr int k=1; static constexpr bool full=true; using V=Fp2; static void set(B& b,int,int,Fp2 x){ b=x; } static Fp2 get(const B& b,int,int){ return b; } static Fp2& v(V& b,int){ return b; } static bool has(int,int){ return true; } };
template<int n> struct E<FieldMatrix<Fp2,n,n>> { static constexpr int k=n; static constexpr bool full=true; using B=FieldMatrix<Fp2,n,n>; using V=FieldVector<Fp2,n>; static void set(B& b,int i,int j,Fp2 x){ b[i][j]=x; } static Fp2 get(const B& b,int i,int j){ return b[i][j]; } static Fp2& v(V& b,int i){ return b[i]; } static bool has(int,int){ return true; } };
template<int n> struct E<DiagonalMatrix<Fp2,n>> { static constexpr int k=n; static constexpr bool full=false; using B=DiagonalMatrix<Fp2,n>; using V=FieldVector<Fp2,n>; static void set(B& b,int i,int j,Fp2 x){ b.diagonal(i)=x; } static Fp2 get(const B& b,int i,int j){ return i==j?b.diagonal(i):Fp2(0); } static Fp2& v(V& b,int i){ return b[i]; } static bool has(int i,int j){ return i==j; } };
template<int n> struct E<ScaledIdentityMatrix<Fp2,n>> { static constexpr int k=n; static constexpr bool full=false; using B=ScaledIdentityMatrix<Fp2,n>; using V=FieldVector<Fp2,n>; static void set(B& b,int i,int j,Fp2 x){ b.scalar()=x; } static Fp2 get(const B& b,int i,int j){ return i==j?b.scalar():Fp2(0); } static Fp2& v(V& b,int i){ return b[i]; } static bool has(int i,int j){ return i==j; } };
template<class T> struct W { static constexpr int w=1; }; template<class B,class A> struct W<BDMatrix<B,A>> { static constexpr int w=0; };
Fp2 rnd(Rng& g,int z){ if(g.chance(z)) return Fp2(0); return Fp2(Fp(g.below(g.chance(30)?3:vt::P)),Fp(g.chance(50)?0:g.below(vt::P))); }
template<class M> std::string obj(const M& m){ using B=typename M::block_type; using EB=E<B>; constexpr int k=EB::k; int n=int(m.N()); Dense D(n*k,std::vector<Fp2>(n*k)); std::vector<std::vector<int>> pat(n); for(auto r=m.begin();r!=m.end();++r) for(auto c=r->begin();c!=r->end();++c){ pat[r.index()].push_back(int(c.index())+1); for(int i=0;i<k;++i) for(int j=0;j<k;++j) D[r.index()*k+i][c.index()*k+j]=EB::get(*c,i,j); }
  return Obj().f("n",n).f("N",int(m.N())).f("M",int(m.M())).f("nnz",int(m.nonzeroes())).f("pat",pat).f("v",D).str(); }
template<class M> void fill(M& m,Rng& g,int z,int zd,Dense& D){ using B=typename M::block_type; using EB=E<B>; constexpr int k=EB::k; int n=int(m.N()); D.assign(n*k,std::vector<Fp2>(n*k)); for(auto r=m.begin();r!=m.end();++r) for(auto c=r->begin();c!=r->end();++c){ for(int i=0;i<k;++i) for(int j=0;j<k;++j) if(EB::has(i,j)) EB::set(*c,i,j,rnd(g,i==j&&r.index()==c.index()?zd:z)); for(int i=0;i<k;++i) for(int j=0;j<k;++j) D[r.index()*k+i][c.index()*k+j]=EB::get(*c,i,j); } }
template<class M> void hist(const std::string& type,Rng& g,int len){
  using B=typename M::block_type; using EB=E<B>; constexpr int k=EB::k; constexpr int w=W<M>::w; using V=BlockVector<typename EB::V>;
  std::unique_ptr<M> o[2]={std::make_unique<M>(),std::make_unique<M>()}; std::string init=obj(*o[0]), steps; int maxn=g.chance(80)?5:9;
  for(int t=0;t<len;++t){ int a=int(g.below(2)); auto& p=o[a]; Obj s; s.f("o",a+1); std::string res="ok"; int c=int(g.below(t<2?2:9)); int z=int(g.in(0,60)), zd=g.chance(70)?0:30; vt::divzero=false;
    try {
      if(c==0){ int n=int(g.in(0,maxn)); s.f("op",std::string("ctor")); p=std::make_unique<M>(n); Dense D; fill(*p,g,z,zd,D); s.f("n",n).f("vals",D); }
      else if(c==1){ int n=int(g.in(0,maxn)); Dense D; s.f("op",std::string("size")); p->setSize(n); fill(*p,g,z,zd,D); s.f("n",n).f("vals",D); }
      else if(c==2){ s.f("op",std::string("assign")); *p=*o[1-a]; }
      else if(c==3){ p=std::make_unique<M>(*o[1-a]); s.f("op",std::string("copy")); }
      else if(c==4){ Fp2 x=rnd(g,20); s.f("op",std::string("scalar")).f("s",x); *p=x; }
      else if(c==5&&g.chance(30)){ p=std::make_unique<M>(); s.f("op",std::string("default")); }
      else if(c==6&&w==0){ if constexpr(w==0){ if(g.chance(50)){ s.f("op",std::string("invert")); p->invert(); } else { M h(3); Dense D; fill(h,g,z,zd,D); p=std::make_unique<M>(std::initializer_list<B>{h[0][0],h[1][1],h[2][2]}); s.f("op",std::string("list")).f("n",3).f("vals",D); } } }
      else { int n=int(p->N()); V x(n),b(n); std::vector<Fp2> jx,jb; for(int i=0;i<n;++i) for(int q=0;q<k;++q){ EB::v(b[i],q)=rnd(g,20); jb.push_back(EB::v(b[i],q)); EB::v(x[i],q)=rnd(g,0); } s.f("op",std::string("solve")).f("b",jb); p->solve(x,b); for(int i=0;i<n;++i) for(int q=0;q<k;++q) jx.push_back(EB::v(x[i],q)); s.f("x",jx); }
    } catch(const Dune::Exception& e){ res="err"; s.f("x",std::vector<Fp2>()); }
    s.f("out",res).raw("post","["+obj(*o[0])+","+obj(*o[1])+"]"); steps+=(t?",":"")+s.str(); }
  out<<Obj().f("kind",std::string("hist")).f("type",type).f("k",k).f("w",w).f("full",EB::full).raw("init",init).raw("steps","["+steps+"]").str()<<std::endl; }
template<int k> Dense dm(const ScaledIdentityMatrix<Fp2,k>& s){ Dense D(k,std::vector<Fp2>(k)); for(auto r=s.begin();r!=s.end();++r) for(auto c=r->begin();c!=r->end();++c) D[r.index()][c.index()]=*c; return D; }
template<int k> void sid(Rng& g){ using S=ScaledIdentityMatrix<Fp2,k>; Fp2 p=rnd(g,10),q=g.chance(15)?p:rnd(g,15); S a(p),b(q); S t=a; t+=b; Obj o; o.f("kind",std::string("sid")).f("type","sid"+std::to_string(k)).f("k",k).f("p",p).f("q",q).f("add",dm(t)); t=a; t-=b; o.f("sub",dm(t)); t=a; t*=q; o.f("mul",dm(t)); o.f("ml",dm(S(q*a))); t=a; t/=q; o.f("div",dm(t)); t=a; t+=q; o.f("addk",dm(t)); t=a; t-=q; o.f("subk",dm(t)); t=a; t=q; o.f("asg",dm(t)); t=b; t.invert(); o.f("inv",dm(t)); o.f("eq",a==b).f("ne",a!=b).f("self",dm(a));
  FieldMatrix<Fp2,k,k> f; f=a; Dense D(k,std::vector<Fp2>(k)); for(int i=0;i<k;++i) for(int j=0;j<k;++j) D[i][j]=f[i][j]; o.f("dense",D); FieldVector<Fp2,k> x(Fp2(7)),y; for(auto& e:y) e=rnd(g,10); b.solve(x,y); std::vector<Fp2> jx(x.begin(),x.end()),jy(y.begin(),y.end()); o.f("x",jx).f("b",jy); std::vector<std::vector<bool>> ex(k,std::vector<bool>(k)); std::string je="["; for(int i=0;i<k;++i){ je+=i?",[":"["; for(int j=0;j<k;++j) je+=std::string(j?",":"")+(a.exists(i,j)?"true":"false"); je+="]"; } o.raw("ex",je+"]"); int di=int(g.in(-20,20)); ScaledIdentityMatrix<double,k> dd(di); o.f("di",di).f("det",int(std::lround(dd.determinant()))); out<<o.str()<<std::endl; }
int main(int argc,char** argv){ out.open(argv[1]); Rng g(std::stoul(argv[2])); int cnt=std::stoi(argv[3]);
  for(int t=0;t<cnt;++t){ int l=int(g.in(4,14));
    hist<BTDMatrix<Fp2>>("btd<number>",g,l); hist<BTDMatrix<FieldMatrix<Fp2,1,1>>>("btd<1>",g,l); hist<BTDMatrix<FieldMatrix<Fp2,2,2>>>("btd<2>",g,l); hist<BTDMatrix<FieldMatrix<Fp2,3,3>>>("btd<3>",g,l);
    hist<BDMatrix<Fp2>>("bd<number>",g,l); hist<BDMatrix<FieldMatrix<Fp2,1,1>>>("bd<1>",g,l); hist<BDMatrix<FieldMatrix<Fp2,2,2>>>("bd<2>",g,l); hist<BDMatrix<FieldMatrix<Fp2,4,4>>>("bd<4>",g,l); hist<BDMatrix<DiagonalMatrix<Fp2,2>>>("bd<diag2>",g,l); hist<BDMatrix<ScaledIdentityMatrix<Fp2,3>>>("bd<sid3>",g,l);
    sid<1>(g); sid<2>(g); sid<3>(g); sid<5>(g); }
  out.close(); std::cout<<"RECORDS"<<std::endl; return 0; }
