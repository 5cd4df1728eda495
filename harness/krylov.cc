// Records iterate and residual of the Krylov solvers after a given number of iterations over GF(P^2).
#include <config.h>
#include "fp2.hh"
#include <fstream>
#include <dune/istl/bvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioner.hh>
#include <dune/istl/scalarproducts.hh>
#include <dune/istl/solvers.hh>
using namespace Dune; using vt::Fp2; using vt::Fp;
using X=BlockVector<FieldVector<Fp2,1>>; using M=BCRSMatrix<FieldMatrix<Fp2,1,1>>;
using Dense=std::vector<std::vector<Fp2>>;
struct Prec : Preconditioner<X,X> { std::vector<Dense> B; int m=0;
  void pre(X&,X&) override { m=0; } void post(X&) override {}
  void apply(X& v,const X& d) override { const Dense& b=B[m++%B.size()]; for(std::size_t i=0;i<v.size();++i) for(std::size_t j=0;j<v.size();++j) v[i][0]+=b[i][j]*d[j][0]; }
  SolverCategory::Category category() const override { return SolverCategory::sequential; } };
struct SP : SeqScalarProduct<X> { double norm(const X&) const override { return 1.0; } };
Fp2 rnd(vt::Rng& g,bool real){ return Fp2(Fp(g.below(vt::P)),real?Fp(0):Fp(g.below(vt::P))); }
Dense rm(vt::Rng& g,int n,bool herm,bool real,int dens){ Dense A(n,std::vector<Fp2>(n)); for(int i=0;i<n;++i) for(int j=0;j<n;++j){ if(herm && j<i){ A[i][j]=conj(A[j][i]); continue; }
   if(i==j) A[i][j]=rnd(g,herm||real); else if(g.chance(dens)) A[i][j]=rnd(g,real); } return A; }
std::string jm(const Dense& A){ std::string r="["; for(std::size_t i=0;i<A.size();++i){ r+=(i?",":"")+vt::js(A[i]); } return r+"]"; }
std::string jx(const X& x){ std::vector<Fp2> v; for(auto& e:x) v.push_back(e[0]); return vt::js(v); }
int main(int argc,char** argv){ std::ofstream out(argv[1]); vt::Rng g(std::stoul(argv[2])); int cnt=std::stoi(argv[3]);
 const char* sols[]={"loop","gradient","cg","bicgstab","gpcg","rfcg","cfcg"};
 for(int c=0;c<cnt;++c) for(std::string sol: sols){
   int n=int(g.in(1,4)); bool real=g.chance(30), herm= sol!="loop"&&sol!="bicgstab" ? true : g.chance(40); bool flex= sol[0]!='c'||sol=="cfcg" ? (sol!="bicgstab"&&g.chance(50)) : false;
   Dense A=rm(g,n,herm,real,70); Prec prec; int nb=flex?int(g.in(2,3)):1; for(int k=0;k<nb;++k) prec.B.push_back(g.chance(20)?[&]{ Dense I(n,std::vector<Fp2>(n)); for(int i=0;i<n;++i) I[i][i]=Fp2(1); return I; }():rm(g,n,herm||(sol!="loop"&&sol!="bicgstab"),real,50));
   M a(n,n,M::row_wise); for(auto r=a.createbegin();r!=a.createend();++r) for(int j=0;j<n;++j) if(A[r.index()][j]!=0 || g.chance(20)) r.insert(j);
   for(auto r=a.begin();r!=a.end();++r) for(auto e=r->begin();e!=r->end();++e) *e=A[r.index()][e.index()];
   int its=int(g.in(1,flex? 7 : n)), par= sol=="gpcg"? int(g.in(1,4)) : int(g.in(0,4)); if(!flex && g.chance(40)) par=n+1;
   MatrixAdapter<M,X,X> op(a); SP sp; std::shared_ptr<InverseOperator<X,X>> solver;
   if(sol=="loop") solver=std::make_shared<LoopSolver<X>>(op,sp,prec,.5,its,0);
   else if(sol=="gradient") solver=std::make_shared<GradientSolver<X>>(op,sp,prec,.5,its,0);
   else if(sol=="cg") solver=std::make_shared<CGSolver<X>>(op,sp,prec,.5,its,0);
   else if(sol=="bicgstab") solver=std::make_shared<BiCGSTABSolver<X>>(op,sp,prec,.5,its,0);
   else if(sol=="gpcg") solver=std::make_shared<GeneralizedPCGSolver<X>>(op,sp,prec,.5,its,0,par);
   else if(sol=="rfcg") solver=std::make_shared<RestartedFCGSolver<X>>(op,sp,prec,.5,its,0,par);
   else solver=std::make_shared<CompleteFCGSolver<X>>(op,sp,prec,.5,its,0,par);
   // a solver object is applied up to three times: each solve is judged on its own
   for(int nr=0, nrs=g.chance(50)?1:int(g.in(2,3)); nr<nrs; ++nr){
     X x(n),b(n); for(int i=0;i<n;++i){ x[i]=g.chance(50)?Fp2(0):rnd(g,real); b[i]=rnd(g,real); }
     vt::Obj o; o.f("sol",sol).f("par",par).f("its",its).f("nr",nr).f("herm",herm).raw("A",jm(A)); std::string bs="["; for(std::size_t k=0;k<prec.B.size();++k) bs+=(k?",":"")+jm(prec.B[k]); o.raw("B",bs+"]").raw("b",jx(b)).raw("x0",jx(x));
     InverseOperatorResult res; std::string st="ok"; vt::divzero=false;
     try{ solver->apply(x,b,res); } catch(Dune::Exception& e){ st="err"; }
     o.raw("x",jx(x)).raw("r",jx(b)).f("out",st=="ok"&&vt::divzero?"divzero":st); out<<o.str()<<"\n"; } }
 std::cout<<"RECORDS"<<std::endl; }
