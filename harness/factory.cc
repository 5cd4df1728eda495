// Replays behaviours of Factory: requests to the solver and preconditioner factories, compared with the constructor call the specification says they stand for.
// -DWORLD=k selects the operator type, -DREVERSED another order of the headers (of the registration).
#include <config.h>
#include "replay.hh"
#include <cmath>
#include <cstring>
#include <memory>
#include <typeinfo>
#include <fcntl.h>
#include <unistd.h>
#include <ext/stdio_filebuf.h>
#include <dune/common/parametertree.hh>
#include <dune/common/parallel/mpihelper.hh>
#ifdef REVERSED
#include <dune/istl/paamg/amg.hh>
#include <dune/istl/umfpack.hh>
#include <dune/istl/superlu.hh>
#include <dune/istl/spqr.hh>
#include <dune/istl/ldl.hh>
#include <dune/istl/cholmod.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/solverfactory.hh>
#else
#include <dune/istl/solverfactory.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/cholmod.hh>
#include <dune/istl/ldl.hh>
#include <dune/istl/spqr.hh>
#include <dune/istl/superlu.hh>
#include <dune/istl/umfpack.hh>
#include <dune/istl/paamg/amg.hh>
#endif
#include <dune/istl/bvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/schwarz.hh>
#include <dune/istl/novlpschwarz.hh>
#include <dune/istl/owneroverlapcopy.hh>
using namespace Dune; using vt::Toks;
// ---------------------------------------------------------------- worlds
#if WORLD==1
using F=double; constexpr int BS=2; using Blk=FieldMatrix<F,2,2>; using VB=FieldVector<F,2>;
#elif WORLD==5
using F=std::complex<double>; constexpr int BS=1; using Blk=FieldMatrix<F,1,1>; using VB=FieldVector<F,1>;
#elif WORLD==6
using F=float; constexpr int BS=1; using Blk=FieldMatrix<F,1,1>; using VB=FieldVector<F,1>;
#elif WORLD==7
using F=double; constexpr int BS=1; using Blk=double; using VB=double;
#else
using F=double; constexpr int BS=1; using Blk=FieldMatrix<F,1,1>; using VB=FieldVector<F,1>;
#endif
using R=typename FieldTraits<F>::real_type;
using M=BCRSMatrix<Blk>; using X=BlockVector<VB>;
using Comm=OwnerOverlapCopyCommunication<int,int>;
using P=Preconditioner<X,X>; using S=InverseOperator<X,X>;
#if WORLD==2
using Op=OverlappingSchwarzOperator<M,X,X,Comm>; constexpr auto CAT=SolverCategory::overlapping;
#elif WORLD==3
using Op=NonoverlappingSchwarzOperator<M,X,X,Comm>; constexpr auto CAT=SolverCategory::nonoverlapping;
#elif WORLD==4
struct Op : LinearOperator<X,X> { std::shared_ptr<M> m;
  void apply(const X& x,X& y) const override { m->mv(x,y); } void applyscaleadd(F a,const X& x,X& y) const override { m->usmv(a,x,y); }
  SolverCategory::Category category() const override { return SolverCategory::sequential; } };
constexpr auto CAT=SolverCategory::sequential;
#else
using Op=MatrixAdapter<M,X,X>; constexpr auto CAT=SolverCategory::sequential;
#endif
constexpr bool PAR=WORLD==2||WORLD==3;
int rank_=0;
std::shared_ptr<M> mat; std::shared_ptr<Op> op; std::shared_ptr<Comm> comm;
template<class B> auto& en(B& b,int i,int j){ if constexpr(std::is_same_v<std::remove_const_t<B>,double>) return b; else return b[i][j]; }
template<class B> auto& vn(B& b,int i){ if constexpr(std::is_same_v<std::remove_const_t<B>,double>) return b; else return b[i]; }
const int G=9, NB=G*G;
double noise(unsigned i){ i=i*2654435761u+12345u; i^=i>>15; i*=2246822519u; i^=i>>13; return (i%1000)/1000.0; }
void setup(){
  auto m=std::make_shared<M>(NB,NB,M::random);
  auto nb=[&](int k,auto f){ int x=k%G,y=k/G; f(k,0); if(x>0) f(k-1,1); if(x+1<G) f(k+1,1); if(y>0) f(k-G,2); if(y+1<G) f(k+G,2); };
  for(int k=0;k<NB;++k){ int n=0; nb(k,[&](int,int){ ++n; }); m->setrowsize(k,n); } m->endrowsizes();
  for(int k=0;k<NB;++k) nb(k,[&](int l,int){ m->addindex(k,l); }); m->endindices();
  for(int k=0;k<NB;++k){ nb(k,[&](int l,int t){ auto& b=(*m)[k][l];
      for(int i=0;i<BS;++i) for(int j=0;j<BS;++j){
        double sym=noise(std::min(k,l)*1000+std::max(k,l)*7+i+j), uns=0.05*noise(k*977+l*31+i*5+j);
        double v= t==0 ? (i==j?6.0+sym:0.3*sym) : (i==j? -(t==1?0.3:1.0)*(0.6+0.4*sym)*(1+uns)*(i==1?0.7:1) : 0.05*sym);
        if(t==1 && k%7==3) v*=0.05;
        en(b,i,j)=F(v); } }); }
  mat=m;
  if constexpr(PAR){
    comm=std::make_shared<Comm>(MPI_COMM_WORLD,CAT);
    auto& is=comm->indexSet(); is.beginResize();
    for(int k=0;k<NB;++k) is.add(rank_*NB+k,Comm::ParallelIndexSet::LocalIndex(k,OwnerOverlapCopyAttributeSet::owner,false));
    is.endResize(); comm->remoteIndices().template rebuild<false>();
  }
#if WORLD==2 || WORLD==3
  op=std::make_shared<Op>(*mat,*comm);
#elif WORLD==4
  op=std::make_shared<Op>(); op->m=mat;
#else
  op=std::make_shared<Op>(mat);
#endif
}
X rhs(int s){ X b(NB); for(int k=0;k<NB;++k) for(int i=0;i<BS;++i) vn(b[k],i)=F(noise(k*13+i*7+s*1001)-0.4); return b; }
// ---------------------------------------------------------------- what an object does
std::string bytes(const X& x){ std::string r; for(int k=0;k<NB;++k) for(int i=0;i<BS;++i){ F v=vn(x[k],i); r.append((const char*)&v,sizeof v); } return r; }
template<class T> std::string raw(T t){ return std::string((const char*)&t,sizeof t); }
std::string mask(const std::string& s){ std::string r; bool d=false; for(char c:s){ if(c==' '||c=='\t') continue; bool e=std::isdigit(c)||c=='.'||c=='-'||c=='+'||c=='e'; if(e){ if(!d) r+='#'; } else r+=c; d=e; } return r; }
struct Capture { std::ostringstream o; std::streambuf* old; Capture():old(std::cout.rdbuf(o.rdbuf())){} ~Capture(){ std::cout.rdbuf(old); } };
struct Print { std::string type, behaviour, text;   // fingerprint
  bool same(const Print& q,bool txt) const { return type==q.type && behaviour==q.behaviour && (!txt||text==q.text); } };
template<class Fn> void guarded(std::string& b,Fn f){ try{ f(); } catch(Dune::Exception& e){ b+=std::string("!")+typeid(e).name(); } }
Print print(P& p,const std::string& made){ Print r; r.type=typeid(p).name(); r.behaviour=std::to_string(int(p.category())); Capture c;
  guarded(r.behaviour,[&]{ X x0=rhs(9), b0=rhs(8); p.pre(x0,b0);
    for(int s=0;s<2;++s){ X v(NB), d=rhs(s); v=F(0); p.apply(v,d); r.behaviour+=bytes(v); }
    X x(rhs(9)); p.post(x); });
  r.text=mask(made+c.o.str()); return r; }
Print print(S& s,const std::string& made){ Print r; r.type=typeid(s).name(); r.behaviour=std::to_string(int(s.category())); Capture c;
  for(int k=0;k<3;++k) guarded(r.behaviour,[&]{ X x(NB), b=rhs(k); x=F(0); InverseOperatorResult res;
    if(k==2) s.apply(x,b,0.05,res); else s.apply(x,b,res);
    r.behaviour+=bytes(x)+raw(res.iterations)+raw(res.converged)+raw(res.reduction); });
  r.text=mask(made+c.o.str()); return r; }
// ---------------------------------------------------------------- the constructor calls
R num(const std::string& s){ std::istringstream i(s); R r; i>>r; return r; }
int inum(const std::string& s){ return std::stoi(s); }
struct Passed : Richardson<X,X> { SolverCategory::Category c; Passed(SolverCategory::Category c_):Richardson<X,X>(R(2)),c(c_){} SolverCategory::Category category() const override { return c; } };
SolverCategory::Category cat(const std::string& s){ return s=="sequential"?SolverCategory::sequential:s=="overlapping"?SolverCategory::overlapping:SolverCategory::nonoverlapping; }
std::shared_ptr<P> passed;
template<class Sm,class Crit> std::shared_ptr<P> amgWith(Crit& c,const Toks& d,std::size_t a){
  c.setMaxLevel(inum(d[a+4])); c.setCoarsenTarget(inum(d[a+5])); c.setMinCoarsenRate(std::stod(d[a+6]));
  c.setAccumulate(d[a+7]=="none"?Amg::noAccu:d[a+7]=="atonce"?Amg::atOnceAccu:Amg::successiveAccu); c.setProlongationDampingFactor(std::stod(d[a+8]));
  c.setMaxDistance(inum(d[a+9])); c.setMinAggregateSize(inum(d[a+10])); c.setMaxAggregateSize(inum(d[a+11])); c.setMaxConnectivity(inum(d[a+12]));
  c.setAlpha(d[a+13].substr(0,5)=="0.333"?1.0/3.0:std::stod(d[a+13])); c.setBeta(std::stod(d[a+14])); c.setAdditive(d[a+15]=="1"); c.setGamma(inum(d[a+16]));
  c.setNoPreSmoothSteps(inum(d[a+17])); c.setNoPostSmoothSteps(inum(d[a+18])); c.setDebugLevel(d[a+19]=="any"?0:inum(d[a+19]));
  typename Amg::SmootherTraits<Sm>::Arguments sa; sa.iterations=inum(d[a+2]); sa.relaxationFactor=num(d[a+3]);
  if constexpr(PAR) return std::make_shared<Amg::AMG<Op,X,Sm,Comm>>(*op,c,sa,*comm);
  else return std::make_shared<Amg::AMG<Op,X,Sm>>(*op,c,sa); }
template<class Sm,class Norm> std::shared_ptr<P> amgNorm(const Toks& d,std::size_t a){
  if(d[a+20]=="1"){ Amg::CoarsenCriterion<Amg::SymmetricCriterion<M,Norm>> c; return amgWith<Sm>(c,d,a); }
  Amg::CoarsenCriterion<Amg::UnSymmetricCriterion<M,Norm>> c; return amgWith<Sm>(c,d,a); }
template<class Sm> std::shared_ptr<P> amgSm(const Toks& d,std::size_t a){ const auto& s=d[a+21];
  if(s=="rowsum") return amgNorm<Sm,Amg::RowSum>(d,a);
  if(s=="frobenius") return amgNorm<Sm,Amg::FrobeniusNorm>(d,a);
  if(s=="one") return amgNorm<Sm,Amg::AlwaysOneNorm>(d,a);
  if(inum(d[a+22])==0) return amgNorm<Sm,Amg::Diagonal<0>>(d,a);
  if constexpr(BS>1) if(inum(d[a+22])==1) return amgNorm<Sm,Amg::Diagonal<1>>(d,a);
  throw std::logic_error("no such norm"); }
template<class Seq> struct SmFor {
#if WORLD==2
  using type=BlockPreconditioner<X,X,Comm,Seq>;
#elif WORLD==3
  using type=NonoverlappingBlockPreconditioner<Comm,Seq>;
#else
  using type=Seq;
#endif
};
std::shared_ptr<P> makePrec(const Toks& d,std::size_t a){
  const auto& n=d[a];
  if(n=="block"){ auto p=makePrec(d,a+1);
#if WORLD==2
    return std::make_shared<BlockPreconditioner<X,X,Comm>>(p,*comm);
#elif WORLD==3
    return std::make_shared<NonoverlappingBlockPreconditioner<Comm,P>>(p,*comm);
#endif
  }
  if(n=="runtime") return std::make_shared<Passed>(cat(d[a+1]));
  if(n=="richardson") return std::make_shared<Richardson<X,X>>(num(d[a+1]));
#if WORLD!=4
  if(n=="ssor") return std::make_shared<SeqSSOR<M,X,X>>(*mat,inum(d[a+1]),num(d[a+2]));
  if(n=="sor") return std::make_shared<SeqSOR<M,X,X>>(*mat,inum(d[a+1]),num(d[a+2]));
  if(n=="gs") return std::make_shared<SeqGS<M,X,X>>(*mat,inum(d[a+1]),num(d[a+2]));
  if(n=="jac") return std::make_shared<SeqJac<M,X,X>>(*mat,inum(d[a+1]),num(d[a+2]));
  if(n=="dilu") return std::make_shared<SeqDILU<M,X,X>>(*mat,num(d[a+1]));
  if(n=="ilu") return std::make_shared<SeqILU<M,X,X>>(*mat,inum(d[a+1]),num(d[a+2]),d[a+3]=="1");
  if(n=="ildl") return std::make_shared<SeqILDL<M,X,X>>(*mat,num(d[a+1]));
#if WORLD!=5 && WORLD!=7
  if(n=="amg"){ const auto& s=d[a+1];
    if(s=="ssor") return amgSm<typename SmFor<SeqSSOR<M,X,X>>::type>(d,a);
    if(s=="sor") return amgSm<typename SmFor<SeqSOR<M,X,X>>::type>(d,a);
    if(s=="jac") return amgSm<typename SmFor<SeqJac<M,X,X>>::type>(d,a);
    if(s=="gs") return amgSm<typename SmFor<SeqGS<M,X,X>>::type>(d,a);
    if(s=="ilu") return amgSm<typename SmFor<SeqILU<M,X,X>>::type>(d,a); }
#endif
#endif
  throw std::logic_error("harness: cannot construct "+n); }
std::shared_ptr<ScalarProduct<X>> scalarProduct(){ if constexpr(PAR) return std::make_shared<ParallelScalarProduct<X,Comm>>(comm,CAT); else return std::make_shared<SeqScalarProduct<X>>(); }
std::shared_ptr<S> makeSolver(const Toks& d){
  const auto& n=d[0];
#if WORLD!=4
#if WORLD!=6
  if(n=="umfpack") return std::make_shared<UMFPack<M>>(*mat,inum(d[1]));
  if(n=="superlu") return std::make_shared<SuperLU<M>>(*mat,inum(d[1]));
#endif
#if WORLD!=5 && WORLD!=6 && WORLD!=7
  if(n=="ldl") return std::make_shared<LDL<M>>(*mat,inum(d[1]));
  if(n=="spqr") return std::make_shared<SPQR<M>>(*mat,inum(d[1]));
#endif
#if WORLD!=5
  if(n=="cholmod"){ auto s=std::make_shared<Cholmod<X>>(); s->setMatrix(*mat); return s; }
#endif
#endif
  R red=num(d[1]); int maxit=inum(d[2]), v=inum(d[3]), k=inum(d[4]); auto p=makePrec(d,5); auto sp=scalarProduct();
  if(n=="loopsolver") return std::make_shared<LoopSolver<X>>(op,sp,p,red,maxit,v);
  if(n=="gradientsolver") return std::make_shared<GradientSolver<X>>(op,sp,p,red,maxit,v);
  if(n=="cgsolver") return std::make_shared<CGSolver<X>>(op,sp,p,red,maxit,v);
  if(n=="bicgstabsolver") return std::make_shared<BiCGSTABSolver<X>>(op,sp,p,red,maxit,v);
  if(n=="minressolver") return std::make_shared<MINRESSolver<X>>(op,sp,p,red,maxit,v);
  if(n=="restartedgmressolver") return std::make_shared<RestartedGMResSolver<X>>(op,sp,p,red,k,maxit,v);
  if(n=="restartedflexiblegmressolver") return std::make_shared<RestartedFlexibleGMResSolver<X>>(op,sp,p,red,k,maxit,v);
  if(n=="generalizedpcgsolver") return std::make_shared<GeneralizedPCGSolver<X>>(op,sp,p,red,maxit,v,k);
  if(n=="restartedfcgsolver") return std::make_shared<RestartedFCGSolver<X>>(op,sp,p,red,maxit,v,k);
  if(n=="completefcgsolver") return std::make_shared<CompleteFCGSolver<X>>(op,sp,p,red,maxit,v,k);
  throw std::logic_error("harness: cannot construct "+n); }
// ---------------------------------------------------------------- categories of the constructor arguments
struct AnyOp : LinearOperator<X,X> { SolverCategory::Category c; void apply(const X& x,X& y) const override { y=x; } void applyscaleadd(F a,const X& x,X& y) const override { y.axpy(a,x); } SolverCategory::Category category() const override { return c; } };
struct AnySp : ScalarProduct<X> { SolverCategory::Category c; SolverCategory::Category category() const override { return c; } };
template<class So,int K> std::shared_ptr<S> ctorCall(const std::string& form,std::shared_ptr<AnyOp> o,std::shared_ptr<AnySp> sp,std::shared_ptr<Passed> p){
  ParameterTree t; t["reduction"]="0.01"; t["maxit"]="7"; t["verbose"]="0"; t["restart"]="3"; t["mmax"]="3"; R red=R(0.01);
  if(form=="cfg2") return std::make_shared<So>(o,p,t);
  if(form=="cfg3") return std::make_shared<So>(o,sp,p,t);
  if constexpr(K==0){   // (reduction, maxit, verbose)
    if(form=="ref2") return std::make_shared<So>(*o,*p,red,7,0);
    if(form=="ref3") return std::make_shared<So>(*o,*sp,*p,red,7,0);
    return std::make_shared<So>(o,sp,p,red,7,0);
  } else if constexpr(K==1){ // restart before maxit
    if(form=="ref2") return std::make_shared<So>(*o,*p,red,3,7,0);
    if(form=="ref3") return std::make_shared<So>(*o,*sp,*p,red,3,7,0);
    return std::make_shared<So>(o,sp,p,red,3,7,0);
  } else {
    if(form=="ref2") return std::make_shared<So>(*o,*p,red,7,0,3);
    if(form=="ref3") return std::make_shared<So>(*o,*sp,*p,red,7,0,3);
    return std::make_shared<So>(o,sp,p,red,7,0,3);
  } }
std::shared_ptr<S> ctor(const std::string& n,const std::string& f,std::shared_ptr<AnyOp> o,std::shared_ptr<AnySp> s,std::shared_ptr<Passed> p){
  if(n=="loopsolver") return ctorCall<LoopSolver<X>,0>(f,o,s,p);
  if(n=="gradientsolver") return ctorCall<GradientSolver<X>,0>(f,o,s,p);
  if(n=="cgsolver") return ctorCall<CGSolver<X>,0>(f,o,s,p);
  if(n=="bicgstabsolver") return ctorCall<BiCGSTABSolver<X>,0>(f,o,s,p);
  if(n=="minressolver") return ctorCall<MINRESSolver<X>,0>(f,o,s,p);
  if(n=="restartedgmressolver") return ctorCall<RestartedGMResSolver<X>,1>(f,o,s,p);
  if(n=="restartedflexiblegmressolver") return ctorCall<RestartedFlexibleGMResSolver<X>,1>(f,o,s,p);
  if(n=="generalizedpcgsolver") return ctorCall<GeneralizedPCGSolver<X>,2>(f,o,s,p);
  if(n=="restartedfcgsolver") return ctorCall<RestartedFCGSolver<X>,2>(f,o,s,p);
  return ctorCall<CompleteFCGSolver<X>,2>(f,o,s,p); }
// ---------------------------------------------------------------- replay
struct Run { std::string extra; std::string seen="1";
  std::string obs(int){ return seen; }
  void reset(int){ seen="1"; PreconditionerFactory<Op>::instance()=std::decay_t<decltype(PreconditionerFactory<Op>::instance())>(); SolverFactory<Op>::instance()=std::decay_t<decltype(SolverFactory<Op>::instance())>(); }
  template<class Obj,class Mk> void compare(std::shared_ptr<Obj> got,const std::string& made,const Toks& d,Mk mk){
    Print a=print(*got,made); if(d.empty()||d[0]=="refused"){ seen="\"an object of type "+a.type.substr(0,60)+"\""; return; }
    std::shared_ptr<Obj> e; std::string t; { Capture c; e=mk(); t=c.o.str(); }
    Print b=print(*e,t); bool txt=std::find(d.begin(),d.end(),"any")==d.end();
    if(!a.same(b,txt)) seen= a.type!=b.type? "\"another type: "+a.type.substr(0,80)+"\"" : a.behaviour!=b.behaviour? "\"behaves differently\"" : "\"prints differently\""; }
  // step: op ; key=val... ; key=val... ; rt ; descriptor...
  void step(const Toks& t){ seen="1"; std::size_t k=1; ParameterTree cfg,pc; std::string rt; Toks d;
    auto read=[&](ParameterTree& f){ for(;t[k]!=";";++k){ auto e=t[k].find('='); f[t[k].substr(0,e)]=t[k].substr(e+1); } ++k; };
    read(cfg); read(pc); rt=t[k]; for(++k;k<t.size();++k) d.push_back(t[k]);
    if(t[0]=="init") initSolverFactories<Op>();
    else if(t[0]=="define"){ std::string n=pc["type"]; PreconditionerFactory<Op>::instance().define(n,[](const std::shared_ptr<Op>&,const ParameterTree&){ return std::shared_ptr<P>(std::make_shared<Richardson<X,X>>(R(3))); }); }
    else if(t[0]=="prec"){ std::shared_ptr<P> p; std::string made; { Capture c; p=getPreconditionerFromFactory(op,pc); made=c.o.str(); }
      compare(p,made,d,[&]{ return makePrec(d,0); }); }
    else if(t[0]=="solver"){
      for(const auto& key:pc.getValueKeys()) cfg.sub("preconditioner")[key]=pc[key];
      if(rt=="-"){ std::shared_ptr<S> s; std::string made; { Capture c; s=getSolverFromFactory(op,cfg); made=c.o.str(); } compare(s,made,d,[&]{ return makeSolver(d); }); }
      else { auto p=std::make_shared<Passed>(cat(rt)); std::weak_ptr<P> w=p; bool threw=false; std::string made;
        try{ std::shared_ptr<S> s; { Capture c; s=getSolverFromFactory(op,cfg,std::shared_ptr<P>(p)); made=c.o.str(); } p.reset(); compare(s,made,d,[&]{ return makeSolver(d); }); }
        catch(Dune::Exception&){ threw=true; p.reset(); }
        if(!w.expired()) seen="\"the preconditioner passed is still alive\"";
        if(threw) DUNE_THROW(Dune::Exception,""); } }
#if WORLD==2 || WORLD==3
    else if(t[0]=="mismatch"){
      Comm c2(MPI_COMM_SELF,WORLD==2?SolverCategory::nonoverlapping:SolverCategory::overlapping); auto& is=c2.indexSet(); is.beginResize();
      for(int i=0;i<NB;++i) is.add(i,Comm::ParallelIndexSet::LocalIndex(i,OwnerOverlapCopyAttributeSet::owner,false));
      is.endResize(); c2.remoteIndices().template rebuild<false>(); auto o2=std::make_shared<Op>(*mat,c2);
      using Sm=typename SmFor<SeqSSOR<M,X,X>>::type; using A=Amg::AMG<Op,X,Sm,Comm>;
      if(rt=="config") A(o2,pc,c2); else { Amg::CoarsenCriterion<Amg::SymmetricCriterion<M,Amg::Diagonal<0>>> c; c.setDebugLevel(0); A(*o2,c,typename A::SmootherArgs(),c2); } }
#endif
    else if(t[0]=="ctor"){ auto o=std::make_shared<AnyOp>(); o->c=cat(pc["type"]); auto s=std::make_shared<AnySp>(); s->c=cat(pc["sp"]); auto p=std::make_shared<Passed>(cat(rt));
      auto so=ctor(cfg["type"],cfg["form"],o,s,p); if(so->category()!=o->c) seen="\"category of the solver\""; }
    else throw std::logic_error("op"); }
};
int main(int argc,char** argv){
  auto& h=MPIHelper::instance(argc,argv); rank_=h.rank();
  int fd=dup(1); int nul=open(rank_==0?"/dev/null":"/dev/null",O_WRONLY); dup2(nul,1);   // the direct solvers print with printf
  __gnu_cxx::stdio_filebuf<char> fb(rank_==0?fd:nul,std::ios::out); auto* old=std::cout.rdbuf(&fb);
  setup(); std::ifstream in(argv[1]); Run run; int rc=vt::replayMain(run,in,std::stol(argv[2])); std::cout.flush(); std::cout.rdbuf(old); op.reset(); comm.reset(); return rc; }
