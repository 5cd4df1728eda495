// Records what solvers, preconditioners, products and vectors do to several right-hand sides at once (SIMD field types):
// Krylov iterates over GF(P) in every lane, solver control with scripted norms, double precision solves next to the
// solves of the single lanes, and products/sweeps/vector operations next to the scalar ones; for spec/Lanes.tla.
#include <config.h>
#include "fp.hh"
#include <fstream>
#include <map>
#include <dune/common/simd/loop.hh>
namespace vt {   // GF(P) with an invalid element: the result of a division by zero, absorbing
struct Nf { std::int32_t v=0; constexpr Nf()=default;
  template<class T,std::enable_if_t<std::is_integral_v<T>,int> =0> constexpr Nf(T x):v(std::int32_t(((std::int64_t(x)%P)+P)%P)){}
  template<class T,std::enable_if_t<std::is_floating_point_v<T>,int> =0> constexpr Nf(T x):v(std::int32_t(((std::int64_t(x)%P)+P)%P)){}
  static constexpr Nf bad(){ Nf r; r.v=-1; return r; } bool ok() const { return v>=0; }
  Nf& operator+=(Nf o){ if(!ok()||!o.ok()) v=-1; else { v+=o.v; if(v>=P) v-=P; } return *this; } Nf& operator-=(Nf o){ if(!ok()||!o.ok()) v=-1; else { v-=o.v; if(v<0) v+=P; } return *this; }
  Nf& operator*=(Nf o){ if(!ok()||!o.ok()) v=-1; else v=std::int32_t(std::int64_t(v)*o.v%P); return *this; }
  Nf& operator/=(Nf o){ if(!o.ok()||o.v==0){ v=-1; return *this; } return *this*=Nf(Fp::inv(Fp(o.v)).v); }
  friend Nf operator+(Nf a,Nf b){ return a+=b; } friend Nf operator-(Nf a,Nf b){ return a-=b; } friend Nf operator*(Nf a,Nf b){ return a*=b; } friend Nf operator/(Nf a,Nf b){ return a/=b; } friend Nf operator-(Nf a){ return Nf(0)-a; } friend Nf operator+(Nf a){ return a; }
#define C(op) friend bool operator op(Nf a,Nf b){ return a.ok()&&b.ok()&&a.v op b.v; }
  C(==) C(<) C(>) C(<=) C(>=)
#undef C
  friend bool operator!=(Nf a,Nf b){ return !(a==b); } explicit operator double() const { return v; } explicit operator int() const { return v; } friend std::ostream& operator<<(std::ostream& o,Nf a){ return o<<a.v; } std::string json() const { return std::to_string(v); } };
inline Nf abs(Nf a){ return a; } inline Nf sqrt(Nf a){ return a; } inline Nf conj(Nf a){ return a; } inline Nf real(Nf a){ return a; } inline bool isNaN(Nf){ return false; } inline bool isFinite(Nf){ return true; } inline bool isfinite(Nf){ return true; } inline bool isnan(Nf){ return false; } inline bool isinf(Nf){ return false; } }
namespace Dune { template<> struct IsNumber<vt::Nf> : std::true_type {};
template<std::size_t S,std::size_t A> class LoopSIMD<vt::Nf,S,A> : public std::array<vt::Nf,S> { using N=vt::Nf; public: LoopSIMD(){ this->fill(N(0)); } LoopSIMD(N i){ this->fill(i); } template<class T,std::enable_if_t<std::is_arithmetic_v<T>,int> =0> LoopSIMD(T i){ this->fill(N(i)); }
  LoopSIMD operator-() const { LoopSIMD r; for(std::size_t i=0;i<S;++i) r[i]=-(*this)[i]; return r; } LoopSIMD operator+() const { return *this; }
#define OP(o) LoopSIMD& operator o(const LoopSIMD& v){ for(std::size_t i=0;i<S;++i) (*this)[i] o v[i]; return *this; } LoopSIMD& operator o(N s){ for(std::size_t i=0;i<S;++i) (*this)[i] o s; return *this; }
  OP(+=) OP(-=) OP(*=) OP(/=)
#undef OP
}; }
namespace std { template<> struct numeric_limits<vt::Nf> { static constexpr bool is_specialized=true,is_signed=true,is_integer=true,has_quiet_NaN=false,is_iec559=false; static vt::Nf max(){ return vt::P-1; } static vt::Nf min(){ return 0; } static vt::Nf lowest(){ return 0; } static vt::Nf epsilon(){ return 0; } }; using vt::isfinite; using vt::isnan; using vt::isinf; using vt::abs; using vt::sqrt; }
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/scalarproducts.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/solvers.hh>
using namespace Dune; using vt::Nf; using vt::Rng; using vt::Obj; std::ofstream out;
template<class T> using L2=LoopSIMD<T,2>; template<class T> using L3=LoopSIMD<T,3>;
template<class T> using DenseT=std::vector<std::vector<T>>; using Dense=DenseT<Nf>;
template<class S> auto ln(const S& s,int l){ return Simd::lane(l,s); }
template<class S,class T> void put(S& s,int l,const T& t){ Simd::lane(l,s)=t; }
std::string jm(const Dense& A){ std::string r="["; for(std::size_t i=0;i<A.size();++i) r+=(i?",":"")+vt::js(A[i]); return r+"]"; }
Nf one(Nf a){ return a; } std::string one(double a){ char t[40]; snprintf(t,40,"%.17g",a==0?0.0:a); return t; }
template<class X> std::string jlanes(const X& x){ using S=typename X::field_type; std::string r="["; for(int l=0;l<int(Simd::lanes<S>());++l){ std::vector<decltype(one(Simd::Scalar<S>()))> v; for(auto& e:x) for(auto& q:e) v.push_back(one(ln(q,l))); r+=(l?",":"")+vt::js(v); } return r+"]"; }
// ---- Krylov recurrences lane by lane
template<class X> struct DPrec : Preconditioner<X,X> { std::vector<Dense> B; int m=0; void pre(X&,X&) override { m=0; } void post(X&) override {}
  void apply(X& v,const X& d) override { const Dense& b=B[m++%B.size()]; for(std::size_t i=0;i<v.size();++i) for(std::size_t j=0;j<v.size();++j) v[i][0]+=b[i][j]*d[j][0]; } SolverCategory::Category category() const override { return SolverCategory::sequential; } };
template<class X> struct ZSP : SeqScalarProduct<X> { using S=typename X::field_type; S norm(const X& x) const override { S r(0); for(int l=0;l<int(Simd::lanes<S>());++l) for(auto& e:x) if(!(ln(e[0],l)==Nf(0))) put(r,l,Nf(1)); return r; } };
Dense rm(Rng& g,int n,bool sym,int dens){ Dense A(n,std::vector<Nf>(n)); for(int i=0;i<n;++i) for(int j=0;j<n;++j){ if(sym&&j<i){ A[i][j]=A[j][i]; continue; } if(i==j||g.chance(dens)) A[i][j]=Nf(g.below(vt::P)); } return A; }
template<class S,bool SM> void kry(Rng& g,std::string sol){ using X=BlockVector<FieldVector<S,1>>; using E=std::conditional_t<SM,S,Nf>; using M=BCRSMatrix<FieldMatrix<E,1,1>>; constexpr int K=Simd::lanes<S>();
  int n=int(g.in(1,4)); bool sym=sol!="loop"&&sol!="bicgstab"||g.chance(40), flex=sol!="bicgstab"&&sol!="cg"&&g.chance(40); std::vector<Dense> A; Dense one=rm(g,n,sym,g.in(20,80)); for(int l=0;l<K;++l) A.push_back(SM?rm(g,n,sym,g.in(20,80)):one);
  DPrec<X> prec; int nb=flex?2:1; for(int k=0;k<nb;++k){ if(g.chance(60)){ Dense I(n,std::vector<Nf>(n)); for(int i=0;i<n;++i) I[i][i]=g.chance(50)?Nf(1):Nf(g.below(vt::P)); prec.B.push_back(I); } else prec.B.push_back(rm(g,n,sym,60)); }
  M a(n,n,M::row_wise); for(auto r=a.createbegin();r!=a.createend();++r) for(int j=0;j<n;++j) r.insert(j); for(auto r=a.begin();r!=a.end();++r) for(auto e=r->begin();e!=r->end();++e){ if constexpr(SM) for(int l=0;l<K;++l) put((*e)[0][0],l,A[l][r.index()][e.index()]); else (*e)[0][0]=one[r.index()][e.index()]; }
  int its=int(g.in(1,flex?6:n+1)), par=sol=="gpcg"?int(g.in(1,4)):int(g.in(0,4)); if(!flex&&g.chance(40)) par=n+1;
  MatrixAdapter<M,X,X> op(a); ZSP<X> sp; std::shared_ptr<InverseOperator<X,X>> s; Simd::Scalar<S> red(0);
  if(sol=="loop") s=std::make_shared<LoopSolver<X>>(op,sp,prec,red,its,0); else if(sol=="gradient") s=std::make_shared<GradientSolver<X>>(op,sp,prec,red,its,0); else if(sol=="cg") s=std::make_shared<CGSolver<X>>(op,sp,prec,red,its,0); else if(sol=="bicgstab") s=std::make_shared<BiCGSTABSolver<X>>(op,sp,prec,red,its,0);
  else if(sol=="gpcg") s=std::make_shared<GeneralizedPCGSolver<X>>(op,sp,prec,red,its,0,par); else if(sol=="rfcg") s=std::make_shared<RestartedFCGSolver<X>>(op,sp,prec,red,its,0,par); else s=std::make_shared<CompleteFCGSolver<X>>(op,sp,prec,red,its,0,par);
  X x(n),b(n); b=S(0); x=S(0); for(int l=0;l<K;++l){ bool zero=g.chance(25), few=g.chance(50); std::vector<Nf> e(n); for(int i=0;i<n;++i){ if(!(few&&g.chance(60))) e[i]=Nf(g.below(vt::P)); Nf y= g.chance(50)?Nf(0):Nf(g.below(vt::P)); put(x[i][0],l,y); if(zero) e[i]=y; } 
     for(int i=0;i<n;++i){ Nf q=zero?Nf(0):e[i]; if(zero) for(int j=0;j<n;++j) q+=A[l][i][j]*e[j]; put(b[i][0],l,q); } }
  std::string as="["; for(int l=0;l<K;++l) as+=(l?",":"")+jm(A[l]); std::string bs="["; for(std::size_t k=0;k<prec.B.size();++k) bs+=(k?",":"")+jm(prec.B[k]);
  Obj o; o.f("kind","kry").f("sol",sol).f("par",par).f("its",its).raw("A",as+"]").raw("B",bs+"]").raw("b",jlanes(b)).raw("x0",jlanes(x)); InverseOperatorResult res; std::string st="ok"; try{ s->apply(x,b,res); } catch(Dune::Exception& e){ st="err"; }
  out<<o.raw("x",jlanes(x)).raw("r",jlanes(b)).f("out",st).str()<<"\n"; }
// ---- solver control with scripted norms: exponents of two, 9001 NaN, 9002 Inf, -9003 zero
double val(int e){ return e==9001?std::nan(""):e==9002?INFINITY:e==-9003?0.0:std::ldexp(1.0,e); }
template<class X> struct Scripted : SeqScalarProduct<X> { using S=typename X::field_type; const std::vector<std::vector<int>>* q; mutable std::size_t k=0; S norm(const X&) const override { S r(0.0); auto& e=(*q)[std::min(k,q->size()-1)]; ++k; for(int l=0;l<int(e.size());++l) put(r,l,val(e[l])); return r; } S dot(const X&,const X&) const override { return S(1.0); } };
template<class X> struct Nop : Preconditioner<X,X> { int npre=0,npost=0; void pre(X&,X&) override { ++npre; } void post(X&) override { ++npost; } void apply(X& v,const X& d) override { v=d; } SolverCategory::Category category() const override { return SolverCategory::sequential; } };
template<class S> void ctl(Rng& g){ using X=BlockVector<FieldVector<S,1>>; using M=BCRSMatrix<FieldMatrix<double,1,1>>; constexpr int K=Simd::lanes<S>(); M m(1,1,1,M::row_wise); { auto r=m.createbegin(); r.insert(0); ++r; } m[0][0]=1.0;
  int mx=int(g.in(0,6)), r0=int(g.in(0,6)); const char* sols[]={"loop","gradient","cg","gpcg","rfcg","cfcg","bicgstab"}; std::string sol=sols[g.below(7)]; int per=sol=="bicgstab"?2:1; std::vector<std::vector<int>> q; int len=per*mx+3; std::vector<int> last(K); for(int t=0;t<len;++t){ std::vector<int> e(K); for(int l=0;l<K;++l){ int c=g.below(100); e[l]= t&&last[l]==-9003? -9003 : c<2?9001:c<4?9002:c<(t?6:20)?-9003:c<10?-int(g.in(99,103)):int(g.in(-8,3)); if(t&&e[l]>=9001&&g.chance(80)) e[l]=-9; last[l]=e[l]; } q.push_back(e); }
  MatrixAdapter<M,X,X> op(m); Scripted<X> sp; sp.q=&q; Nop<X> prec; double red=0.75*std::ldexp(1.0,-r0); std::shared_ptr<InverseOperator<X,X>> s;
  if(sol=="loop") s=std::make_shared<LoopSolver<X>>(op,sp,prec,red,mx,0); else if(sol=="gradient") s=std::make_shared<GradientSolver<X>>(op,sp,prec,red,mx,0); else if(sol=="cg") s=std::make_shared<CGSolver<X>>(op,sp,prec,red,mx,0); else if(sol=="gpcg") s=std::make_shared<GeneralizedPCGSolver<X>>(op,sp,prec,red,mx,0,2); else if(sol=="rfcg") s=std::make_shared<RestartedFCGSolver<X>>(op,sp,prec,red,mx,0,2); else if(sol=="cfcg") s=std::make_shared<CompleteFCGSolver<X>>(op,sp,prec,red,mx,0,2); else s=std::make_shared<BiCGSTABSolver<X>>(op,sp,prec,red,mx,0);
  X x(1),b(1); x=S(1.0); b=S(2.0); InverseOperatorResult res; std::string st="ok"; try{ s->apply(x,b,res); } catch(SolverAbort&){ st="abort"; } std::string qs="["; for(std::size_t i=0;i<sp.k&&i<q.size();++i) qs+=(i?",":"")+vt::js(q[i]); qs+="]";
  int rx=0; bool rfin=std::isfinite(res.reduction), rzero=res.reduction==0; if(rfin&&!rzero) rx=std::ilogb(res.reduction); bool rpow=!rfin||rzero||std::ldexp(1.0,rx)==res.reduction;
  out<<Obj().f("kind","ctl").f("sol",sol).f("per",per).f("max",mx).f("r",r0).raw("sc",qs).f("evals",int(sp.k)).f("out",st).f("conv",res.converged).f("its",res.iterations).f("rfin",rfin).f("rzero",rzero).f("rx",rx).f("rpow",rpow).f("pre",prec.npre).f("post",prec.npost).str()<<"\n"; }
// ---- double precision: all lanes at once next to each lane on its own
template<class X,class M> std::shared_ptr<Preconditioner<X,X>> mkprec(const std::string& p,const M& m){ if(p=="jac") return std::make_shared<SeqJac<M,X,X>>(m,1,1.0); if(p=="ssor") return std::make_shared<SeqSSOR<M,X,X>>(m,1,1.0); if(p=="ilu") return std::make_shared<SeqILU<M,X,X>>(m,1.0); return std::make_shared<Richardson<X,X>>(1.0); }
template<class X> std::shared_ptr<InverseOperator<X,X>> mksol(const std::string& sol,LinearOperator<X,X>& op,Preconditioner<X,X>& p,double red,int mx,int par){
  if(sol=="loop") return std::make_shared<LoopSolver<X>>(op,p,red,mx,0); if(sol=="gradient") return std::make_shared<GradientSolver<X>>(op,p,red,mx,0); if(sol=="cg") return std::make_shared<CGSolver<X>>(op,p,red,mx,0); if(sol=="bicgstab") return std::make_shared<BiCGSTABSolver<X>>(op,p,red,mx,0); if(sol=="minres") return std::make_shared<MINRESSolver<X>>(op,p,red,mx,0);
  if(sol=="gmres") return std::make_shared<RestartedGMResSolver<X>>(op,p,red,par,mx,0); if(sol=="fgmres") return std::make_shared<RestartedFlexibleGMResSolver<X>>(op,p,red,par,mx,0); if(sol=="gpcg") return std::make_shared<GeneralizedPCGSolver<X>>(op,p,red,mx,0,par); if(sol=="rfcg") return std::make_shared<RestartedFCGSolver<X>>(op,p,red,mx,0,par); return std::make_shared<CompleteFCGSolver<X>>(op,p,red,mx,0,par); }
template<class S> void real(Rng& g,const std::string& sol){ using X=BlockVector<FieldVector<S,1>>; using Y=BlockVector<FieldVector<double,1>>; using M=BCRSMatrix<FieldMatrix<double,1,1>>; constexpr int K=Simd::lanes<S>(); int n=int(g.in(1,9));
  // diagonally dominant symmetric matrix; some unknowns are decoupled
  std::vector<std::vector<double>> d(n,std::vector<double>(n)); std::vector<char> free_(n); for(int i=0;i<n;++i) free_[i]=g.chance(40); for(int i=0;i<n;++i) for(int j=0;j<i;++j) if(!free_[i]&&!free_[j]&&g.chance(50)) d[i][j]=d[j][i]=-double(g.in(1,3)); for(int i=0;i<n;++i){ double s=double(1<<g.below(3)); for(int j=0;j<n;++j) if(j!=i) s+=std::abs(d[i][j]); d[i][i]=s; }
  double sc=1.0/32; std::string pn=(const char*[]){"jac","ssor","ilu","rich"}[g.below(4)]; if(sol=="loop"&&pn=="rich") pn="ssor"; if(sol=="loop"&&pn=="jac") pn="ilu"; M m(n,n,M::row_wise); for(auto r=m.createbegin();r!=m.createend();++r) for(int j=0;j<n;++j) if(j==int(r.index())||d[r.index()][j]!=0||g.chance(10)) r.insert(j); for(auto r=m.begin();r!=m.end();++r) for(auto e=r->begin();e!=r->end();++e) *e=sc*d[r.index()][e.index()];
  double red=std::ldexp(1.0,-int(g.in(4,26))); int mx=g.chance(15)?int(g.in(1,4)):2000, par=int(g.in(2,12)); X x(n),b(n); b=S(0.0); x=S(0.0); bool allzero=true; for(int l=0;l<K;++l){ int mode=g.below(4); bool hot=g.chance(60); int k=g.below(n); for(int i=0;i<n;++i){ if(mode==0) continue; if(mode==1){ put(b[i][0],l,i==k?double(1<<g.below(4)):0.0); continue; } if(mode==2&&hot&&!free_[i]) continue; put(b[i][0],l,double(g.in(-8,8))); if(mode==3&&hot) put(x[i][0],l,double(g.in(-3,3))); } if(mode==0&&hot){ std::vector<double> e(n); for(int i=0;i<n;++i){ e[i]=double(g.in(-3,3)); put(x[i][0],l,e[i]); } for(int i=0;i<n;++i){ double q=0; for(int j=0;j<n;++j) q+=sc*d[i][j]*e[j]; put(b[i][0],l,q); } } }
  std::string lanes="["; for(int l=0;l<K;++l){ Y y(n),c(n); for(int i=0;i<n;++i){ y[i]=ln(x[i][0],l); c[i]=ln(b[i][0],l); } Y c0=c; m.mmv(y,c0); if(c0.two_norm()!=0) allzero=false; MatrixAdapter<M,Y,Y> op(m); auto p=mkprec<Y>(pn,m); auto s=mksol<Y>(sol,op,*p,red,mx,par); InverseOperatorResult res; std::string st="ok"; try{ s->apply(y,c,res); } catch(SolverAbort& e){ st=std::string(e.what()).find("NaN")!=std::string::npos?"nan":"breakdown"; } lanes+=(l?",":"")+Obj().f("out",st).f("conv",res.converged).f("its",res.iterations).f("zero",c0.two_norm()==0).str(); } lanes+="]";
  X b0=b,x0=x; MatrixAdapter<M,X,X> op(m); auto p=mkprec<X>(pn,m); auto s=mksol<X>(sol,op,*p,red,mx,par); InverseOperatorResult res; std::string st="ok"; try{ s->apply(x,b,res); } catch(SolverAbort& e){ st=std::string(e.what()).find("NaN")!=std::string::npos?"nan":"breakdown"; }
  // true defects of the lanes in the norm the solver controls would need the preconditioner; the plain norm gets a factor for its condition
  std::vector<int> defs; for(int l=0;l<K;++l){ long double q0=0,q=0; bool fin=true; for(int i=0;i<n;++i){ long double u=ln(b0[i][0],l),v=u; for(int j=0;j<n;++j){ u-=(long double)(sc*d[i][j])*ln(x0[j][0],l); v-=(long double)(sc*d[i][j])*ln(x[j][0],l); } fin&=std::isfinite(ln(x[i][0],l)); q0+=u*u; q+=v*v; } long double lim=std::sqrt(q0)*red+1e-12L; defs.push_back(!fin?-1:int(std::min<long double>(std::ceil(std::sqrt(q)/lim*1000),2000000000.0L))); }
  out<<Obj().f("kind","real").f("sol",sol).f("prec",pn).f("max",mx).f("par",par).raw("lanes",lanes).f("out",st).f("conv",res.converged).f("its",res.iterations).f("rfin",bool(std::isfinite(res.reduction))).f("defs",defs).f("allzero",allzero).str()<<"\n"; }
// ---- products, sweeps, vector operations next to the scalar ones
template<class S,int B,bool SM> void pw(Rng& g){ constexpr int K=Simd::lanes<S>(); using T=Simd::Scalar<S>; constexpr bool ex=std::is_same_v<T,Nf>; auto rv=[&]{ return ex?T(g.below(vt::P)):T(g.in(-1,1)); }; using E=std::conditional_t<SM,S,T>; using X=BlockVector<FieldVector<S,B>>; using Y=BlockVector<FieldVector<T,B>>; using M=BCRSMatrix<FieldMatrix<E,B,B>>; using N=BCRSMatrix<FieldMatrix<T,B,B>>; int n=int(g.in(1,5)); std::vector<std::vector<char>> pat(n,std::vector<char>(n)); for(int i=0;i<n;++i) for(int j=0;j<n;++j) pat[i][j]=i==j||g.chance(50); for(int i=0;i<n;++i) for(int j=0;j<i;++j) pat[i][j]=pat[j][i];
  auto build=[&](auto& a){ using Q=std::decay_t<decltype(a)>; a.setBuildMode(Q::row_wise); a.setSize(n,n); for(auto r=a.createbegin();r!=a.createend();++r) for(int j=0;j<n;++j) if(pat[r.index()][j]) r.insert(j); };
  M a; build(a); std::vector<N> c(K); for(auto& q:c) build(q); for(int i=0;i<n;++i) for(int j=0;j<n;++j) if(pat[i][j]) for(int k=0;k<B;++k) for(int m=0;m<B;++m){ T sh=rv(); for(int l=0;l<K;++l){ T t=SM?rv():sh; if(!ex&&i==j) t=T(k==m?1-2*((i+l*SM)%2):k<m?(i+(SM?l:0))%3-1:0); c[l][i][j][k][m]=t; if constexpr(SM) put(a[i][j][k][m],l,t); else a[i][j][k][m]=t; } }
  X x(n),y(n); std::vector<Y> u(K,Y(n)),v(K,Y(n)); for(int i=0;i<n;++i) for(int k=0;k<B;++k) for(int l=0;l<K;++l){ T s=rv(),t=rv(); u[l][i][k]=s; v[l][i][k]=t; put(x[i][k],l,s); put(y[i][k],l,t); }
  T al=ex?T(g.below(vt::P)):T(g.in(1,2)); S sal; std::vector<T> lal(K); for(int l=0;l<K;++l){ lal[l]=rv(); put(sal,l,lal[l]); }
  auto rec=[&](const char* op,const X& got,const std::vector<Y>& want){ std::string w="["; for(int l=0;l<K;++l) w+=(l?",":"")+jlanes(want[l]).substr(1,jlanes(want[l]).size()-2); out<<Obj().f("kind","pw").f("op",op).f("bs",B).f("sm",SM).raw("got",jlanes(got)).raw("want",w+"]").str()<<"\n"; };
  auto rs=[&](const char* op,const S& got,const std::vector<T>& want){ std::string q="["; for(int l=0;l<K;++l) q+=(l?",":"")+vt::js(std::vector<decltype(one(T()))>{one(ln(got,l))}); std::string w="["; for(int l=0;l<K;++l) w+=(l?",":"")+vt::js(std::vector<decltype(one(T()))>{one(want[l])}); out<<Obj().f("kind","pw").f("op",op).f("bs",B).f("sm",SM).raw("got",q+"]").raw("want",w+"]").str()<<"\n"; };
  auto prod=[&](const char* op,auto f){ X r=y; f(a,x,r,sal); std::vector<Y> w=v; for(int l=0;l<K;++l) f(c[l],u[l],w[l],lal[l]); rec(op,r,w); };
  prod("mv",[](auto& m,auto& p,auto& q,auto){ m.mv(p,q); }); prod("umv",[](auto& m,auto& p,auto& q,auto){ m.umv(p,q); }); prod("mmv",[](auto& m,auto& p,auto& q,auto){ m.mmv(p,q); }); prod("mtv",[](auto& m,auto& p,auto& q,auto){ m.mtv(p,q); }); prod("umtv",[](auto& m,auto& p,auto& q,auto){ m.umtv(p,q); }); prod("umhv",[](auto& m,auto& p,auto& q,auto){ m.umhv(p,q); });
  prod("usmv",[&](auto& m,auto& p,auto& q,auto){ m.usmv(al,p,q); }); prod("axpy",[](auto&,auto& p,auto& q,auto s){ q.axpy(s,p); }); prod("plus",[](auto&,auto& p,auto& q,auto){ q+=p; }); prod("minus",[](auto&,auto& p,auto& q,auto){ q-=p; }); prod("scale",[](auto&,auto&,auto& q,auto s){ q*=s; }); prod("assign",[](auto&,auto&,auto& q,auto s){ q=s; });
  if constexpr(SM) prod("usmv-lane",[&](auto& m,auto& p,auto& q,auto s){ m.usmv(s,p,q); });
  { std::vector<T> w; for(int l=0;l<K;++l) w.push_back(u[l].dot(v[l])); rs("dot",x.dot(y),w); SeqScalarProduct<X> sx; SeqScalarProduct<Y> sy; w.clear(); for(int l=0;l<K;++l) w.push_back(sy.dot(u[l],v[l])); rs("sp",sx.dot(x,y),w); w.clear(); for(int l=0;l<K;++l) w.push_back(u[l]*v[l]); rs("times",x*y,w); }
  auto pre=[&](const char* op,auto mk1,auto mk2){ X r=y; { auto p=mk1(a); X b=x; p->pre(r,b); r=y; p->apply(r,x); p->post(r); } std::vector<Y> w=v; for(int l=0;l<K;++l){ auto p=mk2(c[l]); Y b=u[l]; p->pre(w[l],b); w[l]=v[l]; p->apply(w[l],u[l]); p->post(w[l]); } rec(op,r,w); };
  int its=int(g.in(1,2)); 
  #define PRE(name,cls,...) pre(name,[&](auto& m){ return std::make_shared<cls<M,X,X>>(m,__VA_ARGS__); },[&](auto& m){ return std::make_shared<cls<N,Y,Y>>(m,__VA_ARGS__); })
  PRE("jac",SeqJac,its,al); PRE("gs",SeqGS,its,al); PRE("sor",SeqSOR,its,al); PRE("ssor",SeqSSOR,its,al); if constexpr(B==1){ PRE("ilu0",SeqILU,al); PRE("ilu1",SeqILU,1,al); PRE("ilu2s",SeqILU,2,al,true); PRE("dilu",SeqDILU,al); }
  if constexpr(B==1&&!SM) { PRE("ildl",SeqILDL,al); }
  { Richardson<X,X> p(al); Richardson<Y,Y> q(al); X r=y; p.apply(r,x); std::vector<Y> w=v; for(int l=0;l<K;++l) q.apply(w[l],u[l]); rec("richardson",r,w); }
  { auto r2=std::make_shared<M>(a); MatrixAdapter<M,X,X> o(a); X r=y; o.applyscaleadd(al,x,r); std::vector<Y> w=v; for(int l=0;l<K;++l){ MatrixAdapter<N,Y,Y> q(c[l]); q.applyscaleadd(al,u[l],w[l]); } rec("scaleadd",r,w); } }
int main(int,char** v){ out.open(v[1]); Rng g(std::stoul(v[2])); int n=std::stoi(v[3]); const char* ks[]={"loop","gradient","cg","bicgstab","gpcg","rfcg","cfcg"}; const char* rs[]={"loop","gradient","cg","bicgstab","minres","gmres","fgmres","gpcg","rfcg","cfcg"};
  for(int i=0;i<n;++i){ for(auto s:ks){ switch(g.below(4)){ case 0: kry<L2<Nf>,true>(g,s); break; case 1: kry<L2<Nf>,false>(g,s); break; case 2: kry<L3<Nf>,false>(g,s); break; default: kry<LoopSIMD<Nf,4>,false>(g,s); } } for(int k=0;k<3;++k){ ctl<L2<double>>(g); ctl<L3<double>>(g); } for(auto s:rs){ if(g.chance(50)) real<L2<double>>(g,s); else real<LoopSIMD<double,4>>(g,s); }
    if(i%3==0) switch(g.below(4)){ case 0: pw<L2<Nf>,1,false>(g); break; case 1: pw<L3<Nf>,1,true>(g); break; case 2: pw<L2<double>,2,false>(g); break; default: pw<L2<double>,2,true>(g); } }
  out.close(); std::cout<<"RECORDS"<<std::endl; return 0; }
