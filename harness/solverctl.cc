// Replays behaviours of SolverContract: solvers in a scripted environment.
#include <config.h>
#include "replay.hh"
#include <cmath>
#include <sstream>
#include <memory>
#include <dune/istl/bvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioner.hh>
#include <dune/istl/scalarproducts.hh>
#include <dune/istl/solvers.hh>
using namespace Dune;
using X=BlockVector<FieldVector<double,1>>;
constexpr int NANC=9001, INFC=9002, ZEROC=-9003;
double dec(int e){ return e==NANC?std::nan(""):e==INFC?INFINITY:e==ZEROC?0.0:std::ldexp(1.0,e); }
struct Env { std::vector<int> script; std::size_t pos=0; bool over=false, krylov=false;
  int pre=0, post=0, papply=0; bool early=false, late=false, preargs=true; const X *x0=nullptr,*b0=nullptr; X xpost;
  std::vector<double> diag; int N=0; int opcalls=0; } E;
struct Op : LinearOperator<X,X> {
  static void mul(const X& x,X& y){ ++E.opcalls;
    if(!E.krylov){ for(std::size_t i=0;i<y.size();++i) y[i]=1.0; return; }
    int n=E.N; for(int i=0;i<n;++i){ double v=E.diag[i]*x[i][0]; if(i>0) v+=x[i-1][0]; if(i+1<n) v+=x[i+1][0]; y[i]=v; } }
  void apply(const X& x,X& y) const override { mul(x,y); poison(y); }
  void applyscaleadd(double a,const X& x,X& y) const override { X t(y); mul(x,t); y.axpy(a,t); if(E.opcalls==1) poison(y); }
  // Krylov mode: the operator application that determines a non-finite norm delivers NaN / Inf
  static void poison(X& y){ if(!E.krylov) return; std::size_t k=E.opcalls-1; if(k<E.script.size() && (E.script[k]==NANC||E.script[k]==INFC)) for(auto& e:y) e=dec(E.script[k]); }
  SolverCategory::Category category() const override { return SolverCategory::sequential; } };
struct Prec : Preconditioner<X,X> {
  static bool eq(const X& a,const X& b){ if(a.size()!=b.size()) return false; for(std::size_t i=0;i<a.size();++i) if(a[i]!=b[i]) return false; return true; }
  void pre(X& x,X& b) override { ++E.pre; if(!eq(x,*E.x0)||!eq(b,*E.b0)) E.preargs=false; }
  void apply(X& v,const X& d) override { ++E.papply; if(E.pre!=1) E.early=true; if(E.post) E.late=true; v=d; }
  void post(X& x) override { ++E.post; E.xpost=x; }
  SolverCategory::Category category() const override { return SolverCategory::sequential; } };
struct SP : ScalarProduct<X> {
  double dot(const X& a,const X& b) const override { return E.krylov? a.dot(b) : 1.0; }
  double norm(const X& a) const override { if(E.krylov) return a.two_norm(); if(E.pos>=E.script.size()){ E.over=true; ++E.pos; return 0.0; } return dec(E.script[E.pos++]); }
  SolverCategory::Category category() const override { return SolverCategory::sequential; } };
// symmetric tridiagonal matrix (off-diagonal 1) for which minimal residual methods started with e_1 show the given residual norms
void prescribe(const std::vector<int>& s,int n){ E.N=n; E.diag.assign(n,0.0); double c1=1,s1=0,c2=1; // rotations k-1, k-2
  for(int k=1;k<=n;++k){ double f= k<(int)s.size() && s[k]!=NANC && s[k]!=INFC && s[k]>-9000 ? std::ldexp(1.0,s[k]-s[k-1]) : 0.5;
    double g=std::sqrt(1/(f*f)-1); double off= k==1?0 : (k==2?1.0:c2);
    E.diag[k-1]=(g+s1*off)/c1; double h=std::sqrt(g*g+1); c2=c1; c1=g/h; s1=1/h; } }
struct Run { std::string sol; int par; int maxit=0,r0=0,verb=0; long made=0; std::shared_ptr<Op> op; std::shared_ptr<Prec> prec; std::shared_ptr<SP> sp; std::unique_ptr<IterativeSolver<X,X>> s;
  std::string extra, o;
  static double rd(int r){ return std::ldexp(0.75,-r); }
  void reset(int){ s.reset(); op=std::make_shared<Op>(); prec=std::make_shared<Prec>(); sp=std::make_shared<SP>(); }
  std::string obs(int){ return o; }
  void make(){ double r=rd(r0);
    if(sol=="loop") s=std::make_unique<LoopSolver<X>>(op,sp,prec,r,maxit,verb);
    else if(sol=="gradient") s=std::make_unique<GradientSolver<X>>(op,sp,prec,r,maxit,verb);
    else if(sol=="cg") s=std::make_unique<CGSolver<X>>(op,sp,prec,r,maxit,verb,par==1);
    else if(sol=="bicgstab") s=std::make_unique<BiCGSTABSolver<X>>(op,sp,prec,r,maxit,verb);
    else if(sol=="minres") s=std::make_unique<MINRESSolver<X>>(op,sp,prec,r,maxit,verb);
    else if(sol=="gmres") s=std::make_unique<RestartedGMResSolver<X>>(op,sp,prec,r,par,maxit,verb);
    else if(sol=="fgmres") s=std::make_unique<RestartedFlexibleGMResSolver<X>>(op,sp,prec,r,par,maxit,verb);
    else if(sol=="gpcg") s=std::make_unique<GeneralizedPCGSolver<X>>(op,sp,prec,r,maxit,verb,par);
    else if(sol=="rfcg") s=std::make_unique<RestartedFCGSolver<X>>(op,sp,prec,r,maxit,verb,par);
    else if(sol=="cfcg") s=std::make_unique<CompleteFCGSolver<X>>(op,sp,prec,r,maxit,verb,par);
    else throw std::runtime_error("solver"); }
  // per call: new maxit r0 | solve own|arg r n0 n1 ...
  void step(const vt::Toks& t){
    if(t[0]=="new"){ maxit=std::stoi(t[1]); r0=std::stoi(t[2]); verb=int(made++%3); make(); return; }
    E=Env(); E.krylov= sol=="minres"||sol=="gmres"||sol=="fgmres";
    for(std::size_t i=3;i<t.size();++i) E.script.push_back(std::stoi(t[i]));
    int n=E.krylov? std::max<int>(maxit,1)+3 : 3; X x(n),b(n); x=0.0; b=0.0;
    if(E.krylov){ prescribe(E.script,n); b[0]=dec(E.script[0]==NANC||E.script[0]==INFC?0:E.script[0]); } else { for(int i=0;i<n;++i){ x[i]=i+.5; b[i]=3-i; } }
    X xc(x), bc(b); E.x0=&xc; E.b0=&bc; InverseOperatorResult res; res.converged=true; res.iterations=77; res.reduction=5; res.conv_rate=7;
    std::string out="ok"; std::ostringstream sink; auto* old=std::cout.rdbuf(sink.rdbuf());
    try{ if(t[1]=="own") s->apply(x,b,res); else s->apply(x,b,rd(std::stoi(t[2])),res); }
    catch(SolverAbort&){ out="abort"; } catch(std::exception& e){ out="other"; }
    std::cout.rdbuf(old); std::istringstream said(sink.str()); std::string rows; for(std::string l;std::getline(said,l);){ std::istringstream w(l); double it,df; std::string d; if(!(w>>it>>d)) continue; df=std::strtod(d.c_str(),nullptr);
      rows+=(rows.empty()?"[":",[")+std::to_string(std::lround(2*it))+","+(df>0&&std::isfinite(df)?std::to_string(std::lround(10*std::log2(df))):std::string("-7777"))+"]"; }
    auto l2=[](double v){ return v>0 && std::isfinite(v) ? std::to_string(std::lround(10*std::log2(v))) : std::string("-7777"); };
    auto bl=[](bool v){ return v?"true":"false"; };
    std::size_t used= E.krylov? 0 : E.pos;
    // conv_rate^iterations = reduction, for the number of half iterations given in the script (tolerance 1/10 in the exponent)
    std::string rate= res.conv_rate>0 && std::isfinite(res.conv_rate)? std::to_string(std::lround(1000*std::log2(res.conv_rate))) : "-7777";
    bool postx= E.post!=1 || (Prec::eq(E.xpost,x));
    o="{\"out\":\""+out+"\",\"conv\":"+bl(res.converged)+",\"its\":"+std::to_string(res.iterations)+",\"red\":"+l2(res.reduction)+",\"rate\":"+rate+",\"used\":"+std::to_string(used)
      +",\"verb\":"+std::to_string(verb)+",\"said\":"+bl(!sink.str().empty())+",\"rows\":["+rows+"]"
      +",\"pre\":"+std::to_string(E.pre)+",\"post\":"+std::to_string(E.post)+",\"order\":"+bl(!E.early&&!E.late&&E.preargs&&postx)+"}";
  } };
int main(int argc,char** argv){ std::ifstream in(argv[3]); Run r; r.sol=argv[1]; r.par=std::stoi(argv[2]); return vt::replayMain(r,in,std::stol(argv[4])); }
