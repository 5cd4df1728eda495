// Records what the algebraic multigrid preconditioners (AMG multiplicative and additive, KAMG,
// FastAMG, TwoLevelMethod) compute, over GF(P), together with the hierarchy they work on, for
// spec/AmgCycle.tla.
#include <config.h>
#include "fp.hh"
#include <dune/common/parametertree.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/paamg/amg.hh>
#include <dune/istl/paamg/kamg.hh>
#include <dune/istl/paamg/fastamg.hh>
#include <dune/istl/paamg/twolevelmethod.hh>
#include "counted.hh"
using namespace Dune; using vt::Fp; using vt::Rng; using vt::Obj;
template<class M> struct Policy : Amg::Parameters {
  typedef M Matrix; typedef typename M::row_type Row; typedef typename M::ConstColIterator ColIter;
  std::uint64_t key=1; int strongPct=100, isoPct=0; const M* m=nullptr; int row=0;
  Policy() = default; Policy(const Amg::Parameters& p):Amg::Parameters(p){}
  bool h(std::uint64_t a,std::uint64_t b,int pct) const { Rng r(key*1000003+a*1009+b*31+m->N()*77); return r.chance(pct); }
  void init(const Matrix* mm){ m=mm; }
  void initRow(const Row&,int i){ row=i; }
  void examine(const ColIter&){}
  template<class G> void examine(G& g,const typename G::EdgeIterator& e,const ColIter& c){
    auto a=std::min<std::size_t>(row,c.index()), b=std::max<std::size_t>(row,c.index());
    if(h(a,b,strongPct)){ e.properties().setDepends(); e.properties().setInfluences(); auto& o=g.getEdgeProperties(e.target(),e.source()); o.setInfluences(); o.setDepends(); } }
  bool isIsolated(){ return h(row,row,isoPct); }
};
template<int BS> struct Ty { using B=FieldMatrix<Fp,BS,BS>; using M=BCRSMatrix<B>; using V=BlockVector<FieldVector<Fp,BS>>; using Op=MatrixAdapter<M,V,V>;
  using Crit=Amg::CoarsenCriterion<Amg::AggregationCriterion<Policy<M>>>; using H=Amg::MatrixHierarchy<Op,Amg::SequentialInformation,std::allocator<V>>; };
using Mat=std::vector<std::vector<Fp>>;
template<class M> Mat dense(const M& m){ constexpr int B=M::block_type::rows; Mat r(m.N()*B,std::vector<Fp>(m.M()*B)); for(auto i=m.begin();i!=m.end();++i) for(auto j=i->begin();j!=i->end();++j) for(int k=0;k<B;k++) for(int l=0;l<B;l++) r[i.index()*B+k][j.index()*B+l]=(*j)[k][l]; return r; }
template<class V> std::vector<Fp> flat(const V& v){ std::vector<Fp> r; for(auto& b:v) for(auto& x:b) r.push_back(x); return r; }
template<class V> void rnd(V& v,Rng& g){ for(auto& b:v) for(auto& x:b) x=Fp(g.below(vt::P)); }
// the matrix of a linear operation
template<class V,class F> Mat probe(std::size_t n,F f){ constexpr int B=V::block_type::dimension; Mat r(n*B,std::vector<Fp>(n*B));
  for(std::size_t j=0;j<n;j++) for(int l=0;l<B;l++){ V d(n),v(n); d=0; v=0; d[j][l]=1; f(v,d); auto c=flat(v); for(std::size_t i=0;i<n*B;i++) r[i][j*B+l]=c[i]; } return r; }
// an inexact coarse solver: x += C (b - A x), the right hand side is used up
template<class M,class V> struct Coarse : InverseOperator<V,V> { const M* A; Mat C; int* calls;
  Coarse(const M& a,Mat c,int* k):A(&a),C(std::move(c)),calls(k){}
  void apply(V& x,V& b,InverseOperatorResult& res) override { ++*calls; A->mmv(x,b); auto f=flat(b); constexpr int B=V::block_type::dimension;
    if(f.size()!=C.size()||x.size()!=b.size()) throw std::runtime_error("coarse solver: wrong size");
    for(std::size_t i=0;i<C.size();i++){ Fp s=0; for(std::size_t j=0;j<C.size();j++) s+=C[i][j]*f[j]; x[i/B][i%B]+=s; }
    for(auto& q:b) q=Fp(4711); res.converged=true; res.iterations=1; }
  void apply(V& x,V& b,double,InverseOperatorResult& r) override { apply(x,b,r); }
  SolverCategory::Category category() const override { return SolverCategory::sequential; } };
template<class V> struct Rich : InverseOperator<V,V> { const LinearOperator<V,V>& A; Preconditioner<V,V>& P; int it;
  Rich(const LinearOperator<V,V>& a,const ScalarProduct<V>&,Preconditioner<V,V>& p,double,int n,int):A(a),P(p),it(n){}
  void apply(V& x,V& b,InverseOperatorResult& res) override { A.applyscaleadd(-1,x,b); for(int k=0;k<it;k++){ V c(x); c=0; V d(b); P.apply(c,d); x+=c; A.applyscaleadd(-1,c,b); } b=Fp(99); res.converged=true; }
  void apply(V& x,V& b,double,InverseOperatorResult& r) override { apply(x,b,r); }
  SolverCategory::Category category() const override { return SolverCategory::sequential; } };
template<class M> M rndMatrix(Rng& g,int n,bool sym,bool dirichlet){ constexpr int B=M::block_type::rows; 
  std::vector<std::vector<char>> p(n,std::vector<char>(n)); int shape=g.below(3);
  for(int i=0;i<n;i++){ p[i][i]=1; for(int j=0;j<i;j++){ bool e= shape==0? i-j==1 : shape==1 ? (i-j==1||i-j==3) : g.chance(35); p[i][j]=p[j][i]=e; } }
  Mat v(n*B,std::vector<Fp>(n*B)); for(int i=0;i<n*B;i++) for(int j=0;j<n*B;j++) v[i][j]= (sym&&j<i)? v[j][i] : Fp(g.below(vt::P));
  if(dirichlet) for(int i=0;i<n;i++) if(g.chance(25)) for(int j=0;j<n;j++) if(j!=i) for(int k=0;k<B;k++) for(int l=0;l<B;l++){ v[i*B+k][j*B+l]=0; if(sym) v[j*B+l][i*B+k]=0; }
  M m(n,n,M::random); for(int i=0;i<n;i++){ int s=0; for(int j=0;j<n;j++) s+=p[i][j]; m.setrowsize(i,s); } m.endrowsizes();
  for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(p[i][j]) m.addindex(i,j); m.endindices();
  for(auto i=m.begin();i!=m.end();++i) for(auto j=i->begin();j!=i->end();++j) for(int k=0;k<B;k++) for(int l=0;l<B;l++) (*j)[k][l]=v[i.index()*B+k][j.index()*B+l];
  return m; }
template<class MP> std::vector<int> mapOf(const MP& a){ std::vector<int> r; for(auto x:a) r.push_back(x==MP::ISOLATED?-1: x==MP::UNAGGREGATED?-2:int(x)); return r; }
template<class S> struct Nm;
template<class T,class S> std::shared_ptr<S> makeSm(const typename T::M& A,const typename Amg::SmootherTraits<S>::Arguments& a){
  if constexpr(std::is_same_v<S,SeqILU<typename T::M,typename T::V,typename T::V>>) return std::make_shared<S>(A,0,a.relaxationFactor); else return std::make_shared<S>(A,a.iterations,a.relaxationFactor); }
template<class T,class S> void emitLevel(std::string& out,const typename T::M& A,const typename Amg::SmootherTraits<S>::Arguments& a,const std::string& map){
  using V=typename T::V; auto s=makeSm<T,S>(A,a); 
  Mat pre=probe<V>(A.N(),[&](V& v,V& d){ Amg::SmootherApplier<S>::preSmooth(*s,v,d); });
  Mat post=probe<V>(A.N(),[&](V& v,V& d){ Amg::SmootherApplier<S>::postSmooth(*s,v,d); });
  Mat app=probe<V>(A.N(),[&](V& v,V& d){ s->apply(v,d); });
  out+=(out.empty()?"":",")+Obj().f("A",dense(A)).raw("map",map).f("pre",pre).f("post",post).f("app",app).str(); }
struct Dbl { std::streambuf* o; std::ostringstream s; Dbl():o(std::cout.rdbuf()){ std::cout.rdbuf(s.rdbuf()); } ~Dbl(){ std::cout.rdbuf(o); } };
template<class V,class P> std::string applies(P& p,Rng& g,int n,int k,bool pre=true){ std::string r; 
  V x(n),b(n); 
  for(int i=0;i<k;i++){ V v(n),d(n); v=0; rnd(d,g); auto d0=flat(d); p.apply(v,d); r+=(r.empty()?"":",")+Obj().f("d",d0).f("d1",flat(d)).f("v",flat(v)).str(); }
  return r; }
template<class T,template<class,class,class,int> class SS,int which> void runS(Rng& g,const std::string& sname,long& cnt);
template<class T,class S> void run(Rng& g,const std::string& kind,const std::string& sname){
  using M=typename T::M; using V=typename T::V; using Op=typename T::Op; using H=typename T::H; using Crit=typename T::Crit;
  constexpr int B=M::block_type::rows; vt::divzero=false;
  int n=g.in(g.chance(15)?1:4,B==1?10:6); bool sym= kind=="fast"; bool diri=g.chance(30);
  M A=rndMatrix<M>(g,n,sym,diri);
  Crit c; c.setMaxLevel(g.in(1,4)); c.setCoarsenTarget(g.in(1,2)); c.setMinCoarsenRate(1.0+0.125*g.below(2)); c.setProlongationDampingFactor(g.in(1,5)); c.setAccumulate(Amg::noAccu);
  c.setMinAggregateSize(g.in(1,2)); c.setMaxAggregateSize(g.in(2,3)); c.setMaxDistance(2); c.setSkipIsolated(true); c.setDebugLevel(0);
  c.setGamma(g.in(1,3)); c.setNoPreSmoothSteps(kind=="fast"?1:g.below(3)); c.setNoPostSmoothSteps(kind=="fast"?1:g.below(3)); c.setAdditive(kind=="add");
  c.key=g.below(1000000); c.strongPct=g.chance(50)?100:70; c.isoPct=g.chance(30)?15:0;
  typename Amg::SmootherTraits<S>::Arguments sa; sa.iterations=g.in(1,2); sa.relaxationFactor=Fp(kind=="fast"?1:g.in(1,7));
  if(kind=="fast"||sname=="ilu") sa.iterations=1;
  int calls=0; int ksteps=g.in(1,3); int k=g.in(1,3);
  Obj o; o.f("kind",kind).f("sm",sname).f("bs",B).f("n",n*B).f("gamma",int(c.getGamma())).f("npre",int(c.getNoPreSmoothSteps())).f("npost",int(c.getNoPostSmoothSteps())).f("ksteps",ksteps).f("damp",int(c.getProlongationDampingFactor()));
  auto coarseC=[&](std::size_t N){ Mat C(N*B,std::vector<Fp>(N*B)); for(auto& r:C) for(auto& e:r) e=Fp(g.below(vt::P)); return C; };
  std::string lv, ap, what="ok"; V x(n),b(n); rnd(x,g); rnd(b,g); auto x0=flat(x),b0=flat(b); std::vector<Fp> x1,b1; Mat C; int levels=0;
  try {
   Dbl quiet;
   if(kind=="two"){
    if constexpr(!std::is_same_v<S,SeqILU<M,V,V>>){
    using TP=Amg::AggregationLevelTransferPolicy<Op,Crit>; 
    struct CSP { typedef Op Operator; typedef Coarse<M,V> CoarseLevelSolver; std::function<Mat(std::size_t)> mk; int* calls; Mat* C; std::vector<int>* dummy; std::shared_ptr<Op> keep;
      CoarseLevelSolver* createCoarseLevelSolver(Amg::LevelTransferPolicy<Op,Op>& tp){ keep=tp.getCoarseLevelOperator(); *C=mk(keep->getmat().N()); return new CoarseLevelSolver(keep->getmat(),*C,calls); } };
    Op op(A); TP tp(c); CSP csp{coarseC,&calls,&C,nullptr,nullptr}; vt::smootherLog.clear(); auto sm=makeSm<T,S>(A,sa);
    auto meth=std::make_shared<Amg::TwoLevelMethod<Op,CSP,S>>(op,sm,tp,csp,c.getNoPreSmoothSteps(),c.getNoPostSmoothSteps());
    // the aggregates: probe the transfer operators of a second policy object
    TP tp2(c); tp2.createCoarseLevelSystem(op); std::vector<int> map(n,-1); std::size_t nc=tp2.getCoarseLevelOperator()->getmat().N();
    for(int i=0;i<n;i++){ V e(n); e=0; e[i][0]=1; tp2.moveToCoarseLevel(e); for(std::size_t a=0;a<nc;a++) if(tp2.getCoarseLevelRhs()[a][0]!=Fp(0)) map[i]=a; }
    emitLevel<T,S>(lv,A,sa,vt::js(map)); lv+=","+Obj().f("A",dense(csp.keep->getmat())).f("map",std::vector<int>{}).str(); levels=2;
    meth->pre(x,b); x1=flat(x); b1=flat(b); ap=applies<V>(*meth,g,n,k);
    { auto copy=std::make_shared<Amg::TwoLevelMethod<Op,CSP,S>>(*meth); if(g.chance(50)) meth.reset(); ap+=","+applies<V>(*copy,g,n,1); copy->post(x); }
    if(vt::smootherLog.size()>1) vt::smootherLog.resize(1);
    }
   } else {
    auto op=std::make_shared<Op>(A); Amg::SequentialInformation pi; H h(op,stackobject_to_shared_ptr(pi)); 
    h.template build<NegateSet<typename Amg::SequentialInformation::OwnerSet>>(c); levels=h.levels();
    if(g.chance(30)){ // new values, same aggregates
      for(auto r=A.begin();r!=A.end();++r) for(auto q=r->begin();q!=r->end();++q) if(!sym) for(auto& w:*q) for(auto& e:w) e+=Fp(g.below(3)); 
      const_cast<M&>(h.matrices().finest()->getmat())=A; h.recalculateGalerkin(NegateSet<typename Amg::SequentialInformation::OwnerSet>()); }
    auto am=h.aggregatesMaps().begin(); auto mt=h.matrices().finest(); auto mc=h.matrices().coarsest();
    for(;mt!=mc;++mt,++am) emitLevel<T,S>(lv,mt->getmat(),sa,vt::js(mapOf(**am)));
    lv+=(lv.empty()?"":",")+Obj().f("A",dense(mc->getmat())).f("map",std::vector<int>{}).str();
    C=coarseC(mc->getmat().N()); Coarse<M,V> cs(mc->getmat(),C,&calls); vt::smootherLog.clear();
    auto drive=[&](auto& p){ p.pre(x,b); x1=flat(x); b1=flat(b); ap=applies<V>(p,g,n,k); p.post(x);
      if(g.chance(50)){ V y(x),d(b); p.pre(y,d); ap+=","+applies<V>(p,g,n,1); p.post(y); } };
    if(kind=="fast"){ Amg::FastAMG<Op,V> p(h,cs,c); if(g.chance(30)){ Amg::FastAMG<Op,V> q(p); drive(q); } else drive(p); }
    else if(kind=="kamg"){ Amg::KAMG<Op,V,S,Amg::SequentialInformation,Rich<V>> p(h,cs,sa,c,ksteps,0.1); drive(p); }
    else { Amg::AMG<Op,V,S> p(h,cs,sa,c); if(g.chance(30)){ Amg::AMG<Op,V,S> q(p); drive(q); } else drive(p); }
   }
  } catch(Dune::Exception& e){ what=e.what(); } catch(std::exception& e){ what=e.what(); }
  if(vt::divzero) return;   // a diagonal block was singular: not an input of the method
  if(what!="ok" && what.find("ingular")!=std::string::npos) return;
  o.f("levels",levels).raw("lev","["+lv+"]").f("C",C).f("x0",x0).f("b0",b0).f("x1",x1).f("b1",b1).raw("ap","["+ap+"]").f("what",what).f("calls",calls); if(sname=="jac") o.f("proto",vt::smootherLog);
  std::cout<<o.str()<<"\n";
}
template<int BS> void all(Rng& g,int N){
  using T=Ty<BS>; using M=typename T::M; using V=typename T::V;
  const char* kinds[]={"amg","amg","add","kamg","two"};
  for(int i=0;i<N;i++){ std::string k=kinds[g.below(5)];
    switch(g.below(5)){ case 0: run<T,vt::Counted<M,V,V>>(g,k,"jac"); break; case 1: run<T,SeqSOR<M,V,V>>(g,k,"sor"); break; case 2: run<T,SeqSSOR<M,V,V>>(g,k,"ssor"); break;
      case 3: run<T,SeqILU<M,V,V>>(g,k=="two"?"amg":k,"ilu"); break; default: run<T,SeqSOR<M,V,V>>(g,"fast","gs"); } }
}
// a TwoLevelMethod with one AMG step as coarse solver, copied after use
void copied(Rng& g){ using M=BCRSMatrix<FieldMatrix<double,1,1>>; using V=BlockVector<FieldVector<double,1>>; using Op=MatrixAdapter<M,V,V>; using S=SeqSSOR<M,V,V>;
  using Crit=Amg::CoarsenCriterion<Amg::SymmetricCriterion<M,Amg::FirstDiagonal>>; int n=g.in(6,40); M A(n,n,3*n,M::row_wise);
  for(auto r=A.createbegin();r!=A.createend();++r){ int i=r.index(); if(i) r.insert(i-1); r.insert(i); if(i+1<n) r.insert(i+1); }
  for(auto r=A.begin();r!=A.end();++r) for(auto c=r->begin();c!=r->end();++c) *c= r.index()==c.index()?2.0+g.below(3):-1.0;
  Crit c; c.setDebugLevel(0); c.setCoarsenTarget(3); typename Amg::SmootherTraits<S>::Arguments sa; sa.iterations=1; sa.relaxationFactor=1; Op op(A); using TP=Amg::AggregationLevelTransferPolicy<Op,Crit>; using CSP=Amg::OneStepAMGCoarseSolverPolicy<Op,S,Crit>;
  std::string what="ok"; bool same=true; Dbl* q=new Dbl;
  { TP tp(c); CSP csp(sa,c); auto sm=std::make_shared<S>(A,1,1.0); Amg::TwoLevelMethod<Op,CSP,S> a(op,sm,tp,csp); V x(n),b(n); x=0; for(auto& e:b) e=g.in(-9,9); V d(b); a.pre(x,d); V v(n); v=0; if(g.chance(80)) a.apply(v,b); V ref(n); ref=0;
    auto* cp=new Amg::TwoLevelMethod<Op,CSP,S>(a); if(g.chance(50)){ V w(n); w=0; cp->apply(w,b); ref=w; } else { V w(n); w=0; cp->apply(w,b); delete cp; cp=nullptr; ref=w; }
    V u(n); u=0; a.apply(u,b); for(int i=0;i<n;i++) same=same&&u[i][0]==ref[i][0]&&std::isfinite(u[i][0]); delete cp; a.post(x); }
  delete q; std::cout<<Obj().f("kind","copy").f("n",n).f("what",what).f("same",same).str()<<"\n"; }
int main(int argc,char** argv){ Rng g(std::atoi(argv[1])); int N=std::atoi(argv[2]); dinfo.push(false); dverb.push(false); 
  all<1>(g,N); all<2>(g,N/2); for(int i=0;i<N/20+1;i++) copied(g); }
