// Records what the iterative solvers claim and the recomputed truth (double and complex<double>).
#include <config.h>
#include "fp.hh"
#include <complex>
#include <map>
#include <memory>
#include <functional>
#include <fstream>
#include <cmath>
#include <dune/istl/bvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/scalarproducts.hh>
#include <dune/istl/solvers.hh>
using namespace Dune;
constexpr int NONE=-999999;
int l2(double v){ return v>0&&std::isfinite(v)? int(std::lround(1000*std::log2(v))) : (v==0? -200000 : NONE); }
template<class K> struct Sys { using M=BCRSMatrix<FieldMatrix<K,2,2>>; using X=BlockVector<FieldVector<K,2>>; M A; X b,x0; bool herm,spd; int n; };
template<class K> K rv(vt::Rng& g,int a){ if constexpr(std::is_same_v<K,double>) return double(g.in(-a,a)); else return K(double(g.in(-a,a)),double(g.in(-a,a))); }
template<class K> K cj(K v){ if constexpr(std::is_same_v<K,double>) return v; else return std::conj(v); }
template<class K> Sys<K> make(vt::Rng& g,int kind,double scale){ // 0: spd/hpd, 1: hermitian indefinite, 2: general
  Sys<K> s; int nb=int(g.in(2,4)), n=2*nb; s.n=n; s.herm=kind<2; s.spd=kind==0; std::vector<std::vector<K>> a(n,std::vector<K>(n));
  for(int i=0;i<n;++i) for(int j=0;j<n;++j){ if(kind<2 && j<i) a[i][j]=cj(a[j][i]); else if(i!=j && g.chance(60)) a[i][j]=rv<K>(g,3); }
  for(int i=0;i<n;++i){ double sum=0; for(int j=0;j<n;++j) if(i!=j) sum+=std::abs(a[i][j]); double d=std::ceil(sum)+double(g.in(1,6)); if(kind==1 && g.chance(50)) d=-d; if(kind==2 && g.chance(30)) d=-d; a[i][i]=d; }
  s.A.setBuildMode(Sys<K>::M::row_wise); s.A.setSize(nb,nb);
  for(auto r=s.A.createbegin();r!=s.A.createend();++r) for(int j=0;j<nb;++j){ bool nz=int(r.index())==j; for(int p=0;p<2;++p) for(int q=0;q<2;++q) if(a[2*r.index()+p][2*j+q]!=K(0)||a[2*j+q][2*r.index()+p]!=K(0)) nz=true; if(nz) r.insert(j); }
  for(auto r=s.A.begin();r!=s.A.end();++r) for(auto e=r->begin();e!=r->end();++e) for(int p=0;p<2;++p) for(int q=0;q<2;++q) (*e)[p][q]=a[2*r.index()+p][2*e.index()+q]*scale;
  s.b.resize(nb); s.x0.resize(nb); bool zero=g.chance(40); for(int i=0;i<nb;++i) for(int p=0;p<2;++p){ s.b[i][p]=rv<K>(g,9); s.x0[i][p]= zero?K(0):rv<K>(g,4); } s.b[0][0]+=K(1);
  return s; }
template<class K> std::shared_ptr<Preconditioner<typename Sys<K>::X,typename Sys<K>::X>> prec(const Sys<K>& s,int p){
  using M=typename Sys<K>::M; using X=typename Sys<K>::X; using std::make_shared;
  switch(p){ case 0: return make_shared<Richardson<X,X>>(1.0); case 1: return make_shared<Richardson<X,X>>(4096.0); case 2: return make_shared<Richardson<X,X>>(1.0/1024);
    case 3: return make_shared<SeqJac<M,X,X>>(s.A,1,1.0); case 4: return make_shared<SeqSSOR<M,X,X>>(s.A,1,1.0); case 5: return make_shared<SeqILU<M,X,X>>(s.A,1.0); case 6: return make_shared<SeqGS<M,X,X>>(s.A,1,1.0); }
  return {}; }
template<class K> std::shared_ptr<IterativeSolver<typename Sys<K>::X,typename Sys<K>::X>> solver(const std::string& n,std::shared_ptr<MatrixAdapter<typename Sys<K>::M,typename Sys<K>::X,typename Sys<K>::X>> op,
   std::shared_ptr<Preconditioner<typename Sys<K>::X,typename Sys<K>::X>> p,double red,int maxit,int par){
  using X=typename Sys<K>::X; auto sp=std::make_shared<SeqScalarProduct<X>>(); using std::make_shared;
  if(n=="loop") return make_shared<LoopSolver<X>>(op,sp,p,red,maxit,0);
  if(n=="gradient") return make_shared<GradientSolver<X>>(op,sp,p,red,maxit,0);
  if(n=="cg") return make_shared<CGSolver<X>>(op,sp,p,red,maxit,0);
  if(n=="bicgstab") return make_shared<BiCGSTABSolver<X>>(op,sp,p,red,maxit,0);
  if(n=="minres") return make_shared<MINRESSolver<X>>(op,sp,p,red,maxit,0);
  if(n=="gmres"||n=="gmresR") return make_shared<RestartedGMResSolver<X>>(op,sp,p,red,par,maxit,0);
  if(n=="fgmres"||n=="fgmresR") return make_shared<RestartedFlexibleGMResSolver<X>>(op,sp,p,red,par,maxit,0);
  if(n=="gpcg") return make_shared<GeneralizedPCGSolver<X>>(op,sp,p,red,maxit,0,par);
  if(n=="rfcg") return make_shared<RestartedFCGSolver<X>>(op,sp,p,red,maxit,0,par);
  if(n=="cfcg") return make_shared<CompleteFCGSolver<X>>(op,sp,p,red,maxit,0,par);
  return {}; }
template<class K> void go(vt::Rng& g,std::ostream& out,const char* fld){
  using X=typename Sys<K>::X; using M=typename Sys<K>::M; int kind=int(g.below(3)), pk=int(g.below(7)); double scale= g.chance(25)? std::ldexp(1.0,int(g.in(-20,20))) : 1.0;
  if(kind==1 && pk>2) pk=int(g.below(3));
  auto s=make<K>(g,kind,scale); auto op=std::make_shared<MatrixAdapter<M,X,X>>(s.A); auto P=prec<K>(s,pk); if(pk<3 && kind!=2 && scale!=1.0) P=prec<K>(s,pk);
  // promised norm: 2-norm; left preconditioned (gmres): |W^-1 r|; minres: sqrt(<r,W^-1 r>)
  auto nrm=[&](const X& x,int how){ X r(s.b); s.A.mmv(x,r); if(how==0) return r.two_norm(); X z(r); z=K(0); X rr(r); P->pre(z,rr); z=K(0); P->apply(z,r); P->post(z); if(how==1) return z.two_norm(); return std::sqrt(std::abs(r.dot(z))); };
  auto how=[&](const std::string& n){ return n.substr(0,5)=="gmres"?1:n=="minres"?2:0; };
  bool symp= pk!=6; std::vector<std::string> S={"bicgstab","gmres","gmresR","fgmres","fgmresR","loop"}; if(s.spd && symp) S.insert(S.end(),{"gradient","cg","gpcg","rfcg","cfcg"}); if(s.herm && symp && (pk<3||s.spd)) S.push_back("minres");
  // claims
  for(auto& n:S){ if((n=="loop"||n=="gradient") && !(pk>2&&kind!=1)) continue; int R=int(g.in(1,5)); if(n=="gmres"||n=="fgmres") R=20; double red=std::pow(2.0,-double(g.in(2,24)))*0.77; int maxit= g.chance(40)? 200 : int(g.in(1,9));
    X x(s.x0),b(s.b); InverseOperatorResult res; std::string st="ok"; bool four=g.chance(50); auto so=solver<K>(n,op,P,four?0.5:red,maxit,R); try{ if(four) so->apply(x,b,red,res); else so->apply(x,b,res);} catch(SolverAbort&){ st="abort"; }
    int h=how(n); double r0=nrm(s.x0,h), r1=nrm(x,h); vt::Obj o; o.f("kind",std::string("claim")).f("field",std::string(fld)).f("sol",n).f("mat",kind).f("prec",pk).f("par",R).f("n",s.n).f("maxit",maxit).f("its",res.iterations).f("conv",res.converged).f("out",st)
      .f("req",l2(red)).f("rep",l2(res.reduction)).f("tru",l2(r1/r0)); out<<o.str()<<"\n"; }
  // curves (in one common norm): 2-norm with fgmres as the optimal method; with the identity also gmres and minres
  { int Kmax=std::min(s.n,9), R=int(g.in(1,4)); bool plain=pk==0; vt::Obj o; o.f("kind",std::string("curve")).f("field",std::string(fld)).f("mat",kind).f("prec",pk).f("par",R).f("n",s.n).f("K",Kmax).f("plain",plain).f("best",std::string("fgmres")).f("r0",l2(nrm(s.x0,0)));
    std::string c="{"; auto put=[&](const std::string& n,std::vector<int> v){ c+=(c.size()>1?",":"")+vt::q(n)+":"+vt::js(v); };
    for(auto& n:S){ if(!plain && (n=="gmres"||n=="gmresR"||n=="minres")) continue; std::vector<int> v; for(int k=1;k<=Kmax;++k){ X x(s.x0),b(s.b); InverseOperatorResult res; int it=n=="bicgstab"? k/2 : k; if(it==0){ v.push_back(NONE); continue; }
        int par= n=="gmresR"||n=="fgmresR" ? R : (n=="gmres"||n=="fgmres"?20: (n=="gpcg"||n=="rfcg"||n=="cfcg")? int(g.in(1,5)):0);
        try{ solver<K>(n,op,P,1e-40,it,par)->apply(x,b,res); v.push_back(l2(nrm(x,0))); } catch(SolverAbort&){ v.push_back(NONE); } } put(n,v); }
    for(std::string n: {std::string("gmres"),std::string("fgmres")}){ if(!plain && n=="gmres") continue; std::vector<int> v; bool dead=false; for(int k=1;k<=Kmax;++k){ X x(s.x0); dead=false; for(int d=0;d<k && !dead;d+=R){ X b(s.b); InverseOperatorResult res; try{ solver<K>(n,op,P,1e-40,std::min(R,k-d),20)->apply(x,b,res);} catch(SolverAbort&){ dead=true; } } v.push_back(dead?NONE:l2(nrm(x,0))); } put(n+"S",v); }
    o.raw("c",c+"}"); out<<o.str()<<"\n"; } }
int main(int argc,char** argv){ std::ofstream out(argv[1]); vt::Rng g(std::stoul(argv[2])); int cnt=std::stoi(argv[3]); for(int i=0;i<cnt;++i){ if(g.chance(60)) go<double>(g,out,"double"); else go<std::complex<double>>(g,out,"complex"); } std::cout<<"RECORDS"<<std::endl; }
