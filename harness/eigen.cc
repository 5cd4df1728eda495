// Records histories of the eigenvalue iterations: over GF(P), P = 3 mod 4, with the multiplicative norm
// |v| = the square root of v.v that is itself a square (every identity between norms, absolute values and square roots
// that holds for real numbers holds for it), and over double with known eigenvalues; for spec/Eigen.tla.
#include <config.h>
#include <cmath>
#include <fstream>
#include <functional>
#include "fp.hh"
using vt::Fp; using vt::Rng; using vt::Obj;
struct Skip {};                                   // the history leaves the exact domain
inline Fp froot(Fp a){ std::int64_t r=1,b=a.v,e=(vt::P+1)/4; while(e){ if(e&1) r=r*b%vt::P; b=b*b%vt::P; e>>=1; } Fp q(r); if(q*q!=a) throw Skip(); return q; }
namespace std { inline vt::Fp sqrt(vt::Fp a){ return froot(a); } }
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/solver.hh>
#include <dune/istl/umfpack.hh>
#include <dune/istl/eigenvalue/poweriteration.hh>
using namespace Dune; using VF=std::vector<Fp>; using Mat=std::vector<VF>;
template<int B> struct NV : BlockVector<FieldVector<Fp,B>> { using Base=BlockVector<FieldVector<Fp,B>>; using Base::Base; using Base::operator=; using field_type=Fp; NV()=default;
  Fp two_norm() const { Fp s=0; for(auto& e:*this) for(auto& q:e) s+=q*q; return froot(s); } Fp two_norm2() const { Fp s=0; for(auto& e:*this) for(auto& q:e) s+=q*q; return s; } };
template<int B> VF flat(const NV<B>& v){ VF r; for(auto& e:v) for(auto& q:e) r.push_back(q); return r; }
template<class M> Mat dense(const M& m){ constexpr int B=M::block_type::rows; Mat r(m.N()*B,VF(m.M()*B)); for(auto i=m.begin();i!=m.end();++i) for(auto j=i->begin();j!=i->end();++j) for(int k=0;k<B;++k) for(int l=0;l<B;++l) r[i.index()*B+k][j.index()*B+l]=(*j)[k][l]; return r; }
VF solve(Mat a,VF b){ int n=int(b.size()); for(int k=0;k<n;++k){ int p=k; while(p<n&&a[p][k]==Fp(0)) ++p; if(p==n) throw Skip(); std::swap(a[p],a[k]); std::swap(b[p],b[k]); for(int i=0;i<n;++i) if(i!=k){ Fp f=a[i][k]/a[k][k]; for(int j=0;j<n;++j) a[i][j]-=f*a[k][j]; b[i]-=f*b[k]; } } for(int k=0;k<n;++k) b[k]/=a[k][k]; return b; }
template<int B,bool direct> struct Script { using M=BCRSMatrix<FieldMatrix<Fp,B,B>>; using V=NV<B>;
  LinearOperator<V,V>* op=nullptr; const M* mat=nullptr; Mat held; Rng* g; int noise=0; std::string log; int n=0;
  void setMatrix(const M& m){ held=dense(m); }
  void apply(V& y,V& b,InverseOperatorResult& r){ std::size_t N=b.size(); Mat o(N*B,VF(N*B)); for(std::size_t j=0;j<N*B;++j){ V e(N),c(N); e=0; c=7; e[j/B][j%B]=1; op->apply(e,c); auto f=flat(c); for(std::size_t i=0;i<N*B;++i) o[i][j]=f[i]; }
    V px(N),py(N); for(auto& e:px) for(auto& q:e) q=Fp(g->below(vt::P)); for(auto& e:py) for(auto& q:e) q=Fp(g->below(vt::P)); Fp al(g->below(vt::P)); auto p0=flat(py); op->applyscaleadd(al,px,py);
    auto rhs=flat(b); VF z=solve(direct&&!held.empty()?held:o,rhs); if(g->chance(noise)) for(auto& q:z) if(g->chance(60)) q+=Fp(g->below(vt::P));
    log+=(log.empty()?"":",")+Obj().f("op",o).f("al",al).f("px",flat(px)).f("py",p0).f("pz",flat(py)).f("mat",mat?dense(*mat):Mat()).f("held",held).f("rhs",rhs).f("y",z).str();
    for(std::size_t i=0;i<N*B;++i) y[i/B][i%B]=z[i]; for(auto& e:b) for(auto& q:e) q=Fp(g->below(vt::P)); r.converged=true; r.iterations=1; ++n; } };
namespace Dune { template<int B> struct IsDirectSolver<Script<B,true>> { enum : bool { value=true }; }; }
std::ofstream out;
template<int B,bool direct> void hist(Rng& g){
  using M=BCRSMatrix<FieldMatrix<Fp,B,B>>; using V=NV<B>; using PI=PowerIteration_Algorithms<M,V>; int n=g.in(1,B==1?4:2), dens=g.in(20,100);
  M a(n,n,M::row_wise); bool sym=g.chance(50); std::vector<std::vector<char>> pat(n,std::vector<char>(n)); for(int i=0;i<n;++i) for(int j=0;j<n;++j) pat[i][j]= i==j||g.chance(dens);
  for(auto r=a.createbegin();r!=a.createend();++r) for(int j=0;j<n;++j) if(pat[r.index()][j]) r.insert(j);
  for(auto& r:a) for(auto& e:r) for(auto& x:e) for(auto& q:x) q=Fp(g.below(vt::P)); if(sym) for(int i=0;i<n;++i) for(int j=0;j<=i;++j) for(int k=0;k<B;++k) for(int l=0;l<B;++l) if(pat[i][j]&&pat[j][i]) a[i][j][k][l]=a[j][i][l][k];
  int mx=g.chance(10)?int(g.below(2)):int(g.in(2,6)), verb=g.below(4); std::stringstream sink; auto* old=std::cout.rdbuf(sink.rdbuf());
  std::string st; int cnt=0;
  { PI p(a,mx,verb); Script<B,direct> s; s.g=&g; s.op=&p.getIterationOperator(); s.noise=g.chance(50)?0:50; if(direct&&g.chance(80)){ s.mat=&p.getIterationMatrix(); s.setMatrix(*s.mat); }
    auto emit=[&](const Obj& o){ st+=(st.empty()?"":",")+o.str(); };
    { bool e=false; try { p.getIterationCount(); } catch(ISTLError&){ e=true; } emit(Obj().f("op","count").f("out",e?"err":"ok")); }
    int target=g.in(1,5), tries=0; while(cnt<target&&tries++<30000){
      if(!s.mat&&!direct&&g.chance(2)){ s.mat=&p.getIterationMatrix(); }
      int alg=g.below(5); bool avoid=g.chance(50); V x(n); for(auto& e:x) for(auto& q:e) q=Fp(g.below(vt::P)); auto x0=flat(x);
      auto c=[&](int pct){ return Fp(g.chance(pct)? g.below(vt::P-1) : vt::P-2); };
      Fp gam=g.chance(70)?Fp(g.below(vt::P)):Fp(0), eps=c(70), eta=Fp(g.below(vt::P)), delta=Fp(g.below(vt::P)), lam=Fp(g.below(vt::P)), l0=lam; if(g.chance(60)) eps=Fp(g.below(vt::P/4)); std::size_t m=g.in(0,4); bool ext=g.chance(50); if(alg==1) gam=0;
      s.log.clear(); s.n=0; vt::divzero=false; std::string res="ok";
      try { switch(alg){
        case 0: p.applyPowerIteration(eps,x,lam); break;
        case 1: if(avoid) p.template applyInverseIteration<Script<B,direct>,true>(eps,s,x,lam); else p.applyInverseIteration(eps,s,x,lam); break;
        case 2: if(avoid) p.template applyInverseIteration<Script<B,direct>,true>(gam,eps,s,x,lam); else p.applyInverseIteration(gam,eps,s,x,lam); break;
        case 3: if(avoid) p.template applyRayleighQuotientIteration<Script<B,direct>,true>(eps,s,x,lam); else p.applyRayleighQuotientIteration(eps,s,x,lam); break;
        default: if(avoid) p.template applyTLIMEIteration<Script<B,direct>,true>(gam,eta,eps,s,delta,m,ext,x,lam); else p.applyTLIMEIteration(gam,eta,eps,s,delta,m,ext,x,lam); } }
      catch(Skip&){ continue; } catch(ISTLError&){ res="err"; }
      if(vt::divzero) continue;
      const char* names[]={"power","inv","inv","rqi","tlime"}; int its=0; if(res=="ok") its=int(p.getIterationCount());
      if((res=="err"&&g.chance(70))||(its==1&&g.chance(alg==4?99:90))||(its==2&&g.chance(50))) continue;
      ++cnt; emit(Obj().f("op",names[alg]).f("avoid",avoid).f("gam",gam).f("eps",eps).f("eta",eta).f("delta",delta).f("m",int(m)).f("l0",l0).f("x0",x0).raw("sol","["+s.log+"]").f("out",res).f("x",flat(x)).f("lam",lam).f("ext",ext).f("its",its));
    } }
  std::cout.rdbuf(old); bool said=!sink.str().empty();
  out<<Obj().f("kind","hist").f("bs",B).f("direct",direct).f("max",mx).f("verb",verb).f("said",said).f("A",dense(a)).raw("steps","["+st+"]").str()<<"\n"; }
// ---- real numbers with known integer eigenvalues
struct DSolver { using V=BlockVector<FieldVector<double,1>>; LinearOperator<V,V>& op; void apply(V& y,V& b,InverseOperatorResult& r){ int n=int(b.size()); std::vector<std::vector<double>> a(n,std::vector<double>(n)); for(int j=0;j<n;++j){ V e(n),c(n); e=0; e[j]=1; op.apply(e,c); for(int i=0;i<n;++i) a[i][j]=c[i]; }
    for(int k=0;k<n;++k){ int p=k; for(int i=k;i<n;++i) if(std::abs(a[i][k])>std::abs(a[p][k])) p=i; std::swap(a[p],a[k]); std::swap(b[p],b[k]); for(int i=k+1;i<n;++i){ double f=a[i][k]/a[k][k]; for(int j=k;j<n;++j) a[i][j]-=f*a[k][j]; b[i]-=f*b[k]; } } for(int k=n-1;k>=0;--k){ for(int j=k+1;j<n;++j) b[k]-=a[k][j]*b[j]; b[k]/=a[k][k]; y[k]=b[k]; } r.converged=true; } };
void real(Rng& g){ using M=BCRSMatrix<FieldMatrix<double,1,1>>; using V=DSolver::V; using PI=PowerIteration_Algorithms<M,V>; int n=g.in(1,8); std::vector<std::vector<int>> d(n,std::vector<int>(n)); std::vector<int> perm(n), eig; for(int i=0;i<n;++i) perm[i]=i; for(int i=n-1;i>0;--i) std::swap(perm[i],perm[g.below(i+1)]);
  bool zero=g.chance(10); for(int k=0;k<n;){ if(k+1<n&&g.chance(60)){ int a=g.in(-20,20),b=g.in(1,10); int i=perm[k],j=perm[k+1]; d[i][i]=d[j][j]=a; d[i][j]=d[j][i]=b; eig.push_back(a+b); eig.push_back(a-b); k+=2; } else { int a=zero?0:int(g.in(-25,25)); d[perm[k]][perm[k]]=a; eig.push_back(a); ++k; } }
  M m(n,n,M::row_wise); for(auto r=m.createbegin();r!=m.createend();++r) for(int j=0;j<n;++j) if(d[r.index()][j]||j==int(r.index())) r.insert(j); for(auto r=m.begin();r!=m.end();++r) for(auto e=r->begin();e!=r->end();++e) *e=d[r.index()][e.index()];
  int alg=g.below(5), mx=g.chance(20)?int(g.in(0,5)):2000; double eps=1e-3*g.in(1,20), gam=g.in(-30,30)+0.25*g.below(2)+0.1, eta=0.5*g.in(1,12), lam=gam; bool avoid=g.chance(50), umf=g.chance(50), ext=false; V x(n); bool unit=g.chance(20); int dir=g.below(n); bool exact=unit; for(int i=0;i<n;++i) if(i!=dir&&d[i][dir]) exact=false; for(int i=0;i<n;++i) x[i]= unit? double(i==dir) : (1.0+0.37*perm[i]+0.01*double(g.in(0,10)))*(g.chance(50)?1:-1)   /* no component vanishes */;
  std::string res="ok"; int its=0; PI p(m,mx,0); 
  auto run=[&](auto& s){ using S=std::decay_t<decltype(s)>; switch(alg){ case 1: if(avoid) p.template applyInverseIteration<S,true>(eps,s,x,lam); else p.applyInverseIteration(eps,s,x,lam); break; case 2: if(avoid) p.template applyInverseIteration<S,true>(gam,eps,s,x,lam); else p.applyInverseIteration(gam,eps,s,x,lam); break; case 3: if(avoid) p.template applyRayleighQuotientIteration<S,true>(eps,s,x,lam); else p.applyRayleighQuotientIteration(eps,s,x,lam); break; default: if(avoid) p.template applyTLIMEIteration<S,true>(gam,eta,eps,s,1e-3,3,ext,x,lam); else p.applyTLIMEIteration(gam,eta,eps,s,1e-3,3,ext,x,lam); } };
  try { if(alg==0) p.applyPowerIteration(eps,x,lam); else { for(int e:eig) if(e==0&&alg==1) return; if(umf){ UMFPack<M> s(p.getIterationMatrix(),0); run(s); } else { DSolver s{p.getIterationOperator()}; run(s); } } its=int(p.getIterationCount()); } catch(ISTLError& e){ res="err"; }
  // the residual in units of eps/1000, the eigenvalue in thousandths, the length of the vector in millionths
  long double r2=0,l2=0; bool nan=!(std::isfinite(lam)); for(int i=0;i<n;++i){ long double q=-(long double)lam*x[i][0]; for(int j=0;j<n;++j) q+=(long double)d[i][j]*x[j][0]; r2+=q*q; l2+=(long double)x[i][0]*x[i][0]; nan|=!std::isfinite(x[i][0]); }
  auto cap=[&](long double q){ return nan? -1 : int(std::min<long double>(std::ceil(q),2000000000.0L)); };
  const char* names[]={"power","inv","inv","rqi","tlime"};
  out<<Obj().f("kind","real").f("alg",names[alg]).f("zero",alg==1).f("avoid",avoid).f("umf",umf).f("max",mx).f("unit",unit).f("exact",exact).f("own",d[dir][dir]).f("eig",eig).f("eps",int(std::lround(eps*1000))).f("gam",int(std::lround(gam*1000))).f("eta",int(std::lround(eta*1000))).f("out",res).f("res",cap(std::sqrt(r2)/eps*1000)).f("len",cap(std::sqrt(l2)*1000000)).f("lam",nan?0:int(std::lround(std::max(-1e6,std::min(1e6,lam))*1000))).f("ext",ext).f("its",its).str()<<"\n"; }
void shape(Rng& g){ using M=BCRSMatrix<FieldMatrix<double,2,2>>; int n=g.in(0,3),k=g.in(0,3); M m(n,k,M::row_wise); for(auto r=m.createbegin();r!=m.createend();++r){ if(int(r.index())<k) r.insert(r.index()); } std::string res="ok"; try { PowerIteration_Algorithms<M,BlockVector<FieldVector<double,2>>> p(m); } catch(ISTLError&){ res="err"; } out<<Obj().f("kind","shape").f("n",n).f("k",k).f("out",res).str()<<"\n"; }
int main(int,char** v){ out.open(v[1]); Rng g(std::stoul(v[2])); int n=std::stoi(v[3]);
  for(int i=0;i<n;++i){ switch(g.below(4)){ case 0: hist<1,false>(g); break; case 1: hist<1,true>(g); break; case 2: hist<2,false>(g); break; default: hist<2,true>(g); } real(g); real(g); if(i%20==0) shape(g); }
  out.close(); std::cout<<"RECORDS"<<std::endl; return 0; }
