// Records aggregations, sequential matrix hierarchies and transfers of the AMG for spec/AmgAgg.tla.
#include <config.h>
#include "replay.hh"
#include "fp.hh"
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/paamg/graphcreator.hh>
#include <dune/istl/paamg/aggregates.hh>
#include <dune/istl/paamg/matrixhierarchy.hh>
#include <dune/istl/paamg/transfer.hh>
#include <unistd.h>
using namespace Dune; using vt::Rng; using vt::Obj;
template<int B> using Mx=BCRSMatrix<FieldMatrix<double,B,B>>;
template<int B> using Vc=BlockVector<FieldVector<double,B>>;
using VI=std::vector<int>; using VVI=std::vector<VI>;
template<int B> VVI blocks(const Mx<B>& m){ VVI r; for(auto i=m.begin();i!=m.end();++i) for(auto j=i->begin();j!=i->end();++j){ VI e{int(i.index()),int(j.index())}; for(int k=0;k<B;k++) for(int l=0;l<B;l++) e.push_back(std::llround((*j)[k][l])); r.push_back(e); } return r; }
template<int B> Mx<B> rnd(Rng& g,int n,int kind,bool negdiag){   // kind 0: symmetric, 1: pattern symmetric, 2: any pattern
  int dens=g.in(15,70), sp=g.below(3); std::vector<std::vector<char>> p(n,std::vector<char>(n)); int big=g.chance(50)?1:4;
  for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(i!=j){ bool e= sp==0? std::abs(i-j)==1 : sp==1? (std::abs(i-j)==1||std::abs(i-j)==3) : g.chance(dens); if(kind<2&&j>i) continue; p[i][j]=e; if(kind<2) p[j][i]=e; if(kind==2&&sp<2&&g.chance(20)) p[i][j]=0; }
  std::vector<std::vector<std::array<int,B*B>>> v(n,std::vector<std::array<int,B*B>>(n)); bool zero=g.chance(40);
  for(int i=0;i<n;i++) for(int j=0;j<n;j++) for(int k=0;k<B*B;k++){ if(i==j){ if(k==0){ int d=1<<g.below(3); if(negdiag&&g.chance(15)) d=-d; v[i][i].fill(0); for(int q=0;q<B;q++) v[i][i][q*B+q]=d; } continue; }
     int e=-g.in(0,big); if(g.chance(15)) e=-e; if(zero&&g.chance(30)) e=0; v[i][j][k]=e; }
  if(kind==0) for(int i=0;i<n;i++) for(int j=0;j<i;j++) for(int k=0;k<B;k++) for(int l=0;l<B;l++) v[i][j][k*B+l]=v[j][i][l*B+k];
  if(g.chance(30)) for(int i=0;i<n;i++) if(g.chance(25)) for(int j=0;j<n;j++) if(i!=j){ v[i][j].fill(0); if(kind==0) v[j][i].fill(0); }
  Mx<B> m(n,n,Mx<B>::random); for(int i=0;i<n;i++){ int s=1; for(int j=0;j<n;j++) s+=(j!=i&&p[i][j]); m.setrowsize(i,s); } m.endrowsizes();
  for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(i==j||p[i][j]) m.addindex(i,j); m.endindices();
  for(auto i=m.begin();i!=m.end();++i) for(auto j=i->begin();j!=i->end();++j) for(int k=0;k<B;k++) for(int l=0;l<B;l++) (*j)[k][l]=v[i.index()][j.index()][k*B+l];
  return m; }
struct Prm { int al,be,mn,mx,con,skip,fin; };
template<class C> void set(C& c,const Prm& p){ c.setAlpha(p.al/4.0); c.setBeta(p.be/16.0); c.setMinAggregateSize(p.mn); c.setMaxAggregateSize(p.mx); c.setMaxConnectivity(p.con); c.setSkipIsolated(p.skip); c.setMaxDistance(2); c.setDebugLevel(0); }
template<class MP> VI mapOf(const MP& a){ VI r; for(auto x:a) r.push_back(x==MP::ISOLATED?-1: x==MP::UNAGGREGATED?-2:int(x)); return r; }
template<int B,class Dep> void agg(Rng& g,const char* crit,const char* norm,int kind,bool neg){
  int n=g.in(1,9); auto m=rnd<B>(g,n,kind,neg); Prm p{g.in(0,4),g.chance(50)?g.below(2):g.below(17),g.in(1,4),g.in(1,5),g.chance(70)?15:g.in(1,6),int(g.chance(60)),int(g.chance(60))};
  if(g.chance(85)&&p.mx<p.mn) std::swap(p.mx,p.mn);
  Amg::AggregationCriterion<Dep> c; set(c,p);
  Obj o; o.f("kind","agg").f("crit",crit).f("norm",norm).f("bs",B).f("n",n).f("a",blocks<B>(m)).f("alpha",p.al).f("beta",p.be).f("min",p.mn).f("max",p.mx).f("con",p.con).f("skip",bool(p.skip)).f("finest",bool(p.fin));
  std::string what="ok"; VVI fl; VI iso,excl,map,tup;
  try {
    typedef Amg::MatrixGraph<const Mx<B>> MG; typedef Amg::PropertiesGraph<MG,Amg::VertexProperties,Amg::EdgeProperties,IdentityMap,IdentityMap> PG;
    MG mg(m); PG pg(mg,IdentityMap(),IdentityMap()); Amg::AggregatesMap<std::size_t> am(pg.maxVertex()+1);
    auto t=am.buildAggregates(m,pg,c,bool(p.fin)); tup={std::get<0>(t),std::get<1>(t),std::get<2>(t),std::get<3>(t)}; map=mapOf(am);
    for(auto v=pg.begin();v!=pg.end();++v){ auto& q=v.properties(); iso.push_back(q.isolated()); excl.push_back(q.excludedBorder()); for(auto e=v.begin();e!=v.end();++e) fl.push_back({int(e.source()),int(e.target()),int(e.properties().depends()),int(e.properties().influences()),int(e.properties().isOneWay()),int(e.properties().isTwoWay())}); }
    // reuse of the map object for the connected search
  } catch(Dune::Exception& e){ what="exception"; }
  o.f("what",what).f("fl",fl).f("iso",iso).f("excl",excl).f("map",map).f("tup",tup); std::cout<<o.str()<<"\n"; }
// hierarchy: dependency given by hashing, all integers
template<class M> struct Policy : Amg::Parameters {
  typedef M Matrix; typedef typename M::row_type Row; typedef typename M::ConstColIterator ColIter; std::uint64_t key=1; int strongPct=100,isoPct=0; const M* m=nullptr; int row=0;
  Policy()=default; Policy(const Amg::Parameters& p):Amg::Parameters(p){}
  bool h(std::uint64_t a,std::uint64_t b,int pct) const { Rng r(key*1000003+a*1009+b*31+m->N()*77); return r.chance(pct); }
  void init(const Matrix* mm){ m=mm; } void initRow(const Row&,int i){ row=i; } void examine(const ColIter&){}
  template<class G> void examine(G& g,const typename G::EdgeIterator& e,const ColIter& c){ auto a=std::min<std::size_t>(row,c.index()), b=std::max<std::size_t>(row,c.index());
    if(h(a,b,strongPct)){ e.properties().setDepends(); e.properties().setInfluences(); auto& o=g.getEdgeProperties(e.target(),e.source()); o.setInfluences(); o.setDepends(); } }
  bool isIsolated(){ return h(row,row,isoPct); } };
template<int B> void hier(Rng& g){
  using M=Mx<B>; using V=Vc<B>; using Op=MatrixAdapter<M,V,V>; using Crit=Amg::CoarsenCriterion<Amg::AggregationCriterion<Policy<M>>>; using H=Amg::MatrixHierarchy<Op,Amg::SequentialInformation>;
  int n=g.in(g.chance(15)?1:4,14); auto m=rnd<B>(g,n,1,false); Crit c; int maxl=g.in(0,4), target=g.in(0,4), rate=g.in(8,16); bool skip=g.chance(70);
  c.setMaxLevel(maxl); c.setCoarsenTarget(target); c.setMinCoarsenRate(rate/8.0); c.setProlongationDampingFactor(1); c.setAccumulate(Amg::noAccu); c.setMinAggregateSize(g.in(1,2)); c.setMaxAggregateSize(g.in(2,3)); c.setMaxDistance(2); c.setSkipIsolated(skip); c.setDebugLevel(0);
  c.key=g.below(1000000); c.strongPct=g.chance(50)?100:g.in(30,90); c.isoPct=g.chance(40)?g.in(5,40):0;
  Obj o; o.f("kind","hier").f("bs",B).f("n",n).f("maxl",maxl).f("target",target).f("rate",rate); std::string lv; VI next, coarsest, sizes; int levels=0,maxlevels=0; bool has=false,built=false;
  { auto op=std::make_shared<Op>(m); Amg::SequentialInformation pi; H h(op,stackobject_to_shared_ptr(pi)); using OF=NegateSet<typename Amg::SequentialInformation::OwnerSet>; h.template build<OF>(c);
    levels=h.levels(); maxlevels=h.maxlevels(); has=h.hasCoarsest(); built=h.isBuilt();
    // what the next level would look like
    { typedef Amg::MatrixGraph<const M> MG; typedef Amg::PropertiesGraph<MG,Amg::VertexProperties,Amg::EdgeProperties,IdentityMap,IdentityMap> PG; const M& cm=h.matrices().coarsest()->getmat(); MG mg(cm); PG pg(mg,IdentityMap(),IdentityMap()); Amg::AggregatesMap<std::size_t> a(pg.maxVertex()+1); auto t=a.buildAggregates(cm,pg,c,levels==1); next={std::get<0>(t)}; }
    if(g.chance(50)){ for(auto r=m.begin();r!=m.end();++r) for(auto q=r->begin();q!=r->end();++q) for(int k=0;k<B;k++) (*q)[k][0]+=g.in(-2,2); const_cast<M&>(h.matrices().finest()->getmat())=m; h.recalculateGalerkin(OF()); }
    auto am=h.aggregatesMaps().begin(); auto mt=h.matrices().finest();
    for(int l=0;l<levels;l++){ lv+=(l?",":"")+Obj().f("n",int(mt->getmat().N())).f("a",blocks<B>(mt->getmat())).f("map",l+1<levels?mapOf(**am):VI()).str(); if(l+1<levels){ ++mt; ++am; } }
    { std::vector<std::size_t> d; h.getCoarsestAggregatesOnFinest(d); for(auto x:d) coarsest.push_back(int(x)); }
    { Amg::Hierarchy<V> vh(std::make_shared<V>(n)); h.coarsenVector(vh); sizes.push_back(int(vh.levels())); auto it=vh.finest(); for(int l=0;l<int(vh.levels());l++){ sizes.push_back(int(it->size())); if(l+1<int(vh.levels())) ++it; } }
  }
  o.f("levels",levels).f("maxlevels",maxlevels).f("has",has).f("built",built).raw("lev","["+lv+"]").f("next",next).f("coarsest",coarsest).f("sizes",sizes); std::cout<<o.str()<<"\n"; }
template<int B> VI flat(const Vc<B>& v){ VI r; for(auto& b:v) for(auto e:b) r.push_back(int(std::llround(e))); return r; }
template<int B> void transfer(Rng& g){ int n=g.in(0,8), nc=g.in(1,4); using V=Vc<B>; Amg::AggregatesMap<std::size_t> am(n); VI map; for(int i=0;i<n;i++){ int a=g.in(-1,nc-1); map.push_back(a); am[i]= a<0?Amg::AggregatesMap<std::size_t>::ISOLATED:a; }
  V f(n),c(nc); for(auto& b:f) for(auto& e:b) e=g.in(-9,9); for(auto& b:c) for(auto& e:b) e=g.in(-9,9); auto f0=flat<B>(f),c0=flat<B>(c); int damp=g.in(1,3);
  bool up=g.chance(50); Amg::SequentialInformation pi;
  if(up) Amg::Transfer<std::size_t,V,Amg::SequentialInformation>::prolongateVector(am,c,f,double(damp),pi); else Amg::Transfer<std::size_t,V,Amg::SequentialInformation>::restrictVector(am,c,f,pi);
  std::cout<<Obj().f("kind","tr").f("bs",B).f("up",up).f("damp",damp).f("map",map).f("f0",f0).f("c0",c0).f("f1",flat<B>(f)).f("c1",flat<B>(c)).str()<<"\n"; am.free(); }
// ---- parameters: a history of calls on the parameters and on the criterion made from them, and what is read back
using Call=std::pair<std::string,VI>;
template<class C> void call(C& c,const Call& k){ const auto& f=k.first; int v=k.second[0]; double x=v/3e6;
  if(f=="alpha") c.setAlpha(x); else if(f=="beta") c.setBeta(x); else if(f=="rate") c.setMinCoarsenRate(x); else if(f=="damp") c.setProlongationDampingFactor(x);
  else if(f=="dist") c.setMaxDistance(v); else if(f=="min") c.setMinAggregateSize(v); else if(f=="max") c.setMaxAggregateSize(v); else if(f=="con") c.setMaxConnectivity(v); else if(f=="skip") c.setSkipIsolated(v);
  else if(f=="maxl") c.setMaxLevel(v); else if(f=="target") c.setCoarsenTarget(v); else if(f=="acc") c.setAccumulate(Amg::AccumulationMode(v)); else if(f=="accb") c.setAccumulate(bool(v)); else if(f=="fixed") c.setUseFixedOrder(v);
  else if(f=="debug") c.setDebugLevel(v); else if(f=="pre") c.setNoPreSmoothSteps(v); else if(f=="post") c.setNoPostSmoothSteps(v); else if(f=="gamma") c.setGamma(v); else if(f=="add") c.setAdditive(v);
  else if(f=="iso") c.setDefaultValuesIsotropic(v,k.second[1]); else if(f=="aniso") c.setDefaultValuesAnisotropic(v,k.second[1]);
  else if(f=="iso2") c.setDefaultValuesIsotropic(v); else if(f=="aniso2") c.setDefaultValuesAnisotropic(v); else std::abort(); }
template<class C> VI back(const C& c){ auto r=[](double x){ return int(std::llround(x*3e6)); };
  return {r(c.alpha()),r(c.beta()),r(c.minCoarsenRate()),r(c.getProlongationDampingFactor()),int(c.maxDistance()),int(c.minAggregateSize()),int(c.maxAggregateSize()),int(c.maxConnectivity()),c.skipIsolated(),c.maxLevel(),c.coarsenTarget(),int(c.accumulate()),c.useFixedOrder(),c.debugLevel(),int(c.getNoPreSmoothSteps()),int(c.getNoPostSmoothSteps()),int(c.getGamma()),c.getAdditive()}; }
std::vector<Call> calls(Rng& g,int n){ std::vector<Call> r; static const std::vector<std::string> D{"alpha","beta","rate","damp"}, I{"dist","min","max","con","maxl","target","debug","pre","post","gamma"}, B{"skip","accb","fixed","add"}, S{"iso","aniso","iso2","aniso2"};
  for(int i=0;i<n;i++) switch(g.below(7)){ case 0: case 1: r.push_back({D[g.below(4)],{g.in(0,32)*187500}}); break; case 2: case 3: r.push_back({I[g.below(10)],{g.in(0,40)}}); break;
    case 4: r.push_back({B[g.below(4)],{g.below(2)}}); break; case 5: r.push_back({"acc",{g.below(3)}}); break; default: r.push_back({S[g.below(4)],{g.in(1,4),g.in(1,4)}}); }
  return r; }
std::string shown(const std::vector<Call>& v){ std::string s="["; for(auto& k:v){ if(s.size()>1) s+=","; s+="{\"f\":\""+k.first+"\",\"v\":["; for(size_t i=0;i<k.second.size();i++) s+=(i?",":"")+std::to_string(k.second[i]); s+="]}"; } return s+"]"; }
template<class Crit> void param(Rng& g,const char* name){
  int nc=g.below(7), via=g.below(3); VI ct{g.in(1,40),g.in(1,40),g.in(1,32)*187500,g.in(1,32)*187500,g.below(3),g.below(2)}; ct.resize(nc); auto a=calls(g,via==0?g.in(0,6):0), b=calls(g,g.in(0,6));
  auto v=[&](int i){ return ct[i]; };
  auto mk=[&](auto* t)->std::decay_t<decltype(*t)> { using T=std::decay_t<decltype(*t)>; using AM=Amg::AccumulationMode; switch(nc){ case 0: return T(); case 1: return T(v(0)); case 2: return T(v(0),v(1)); case 3: return T(v(0),v(1),v(2)/3e6); case 4: return T(v(0),v(1),v(2)/3e6,v(3)/3e6);
    case 5: return T(v(0),v(1),v(2)/3e6,v(3)/3e6,AM(v(4))); default: return T(v(0),v(1),v(2)/3e6,v(3)/3e6,AM(v(4)),bool(v(5))); } };
  VI mid; VI got;
  if(via==0){ auto p=mk((Amg::Parameters*)nullptr); for(auto& k:a) call(p,k); mid=back(p); Crit c(p); for(auto& k:b) call(c,k); got=back(c); }
  else if(via==1){ auto c=mk((Crit*)nullptr); mid=back(c); for(auto& k:b) call(c,k); Crit d(c); got=back(d); }
  else { auto p=mk((Amg::Parameters*)nullptr); mid=back(p); for(auto& k:b) call(p,k); auto d=p; got=back(d); }
  std::cout<<Obj().f("kind","par").f("crit",name).f("ctor",ct).raw("pre",shown(a)).f("mid",mid).raw("calls",shown(b)).f("got",got).str()<<"\n"; }
// ---- the container of the levels: a history of calls, a deep copy in between
void container(Rng& g){ using T=Vc<1>; using H=Amg::Hierarchy<T>; std::unique_ptr<H> h; bool first=g.chance(50); int v0=g.in(1,20); if(first) h=std::make_unique<H>(std::make_shared<T>(v0)); else h=std::make_unique<H>();
  int levels=first; auto look=[](H& h){ VI r{int(h.levels())}, red, back; const H& c=h; if(h.levels()==0) return VVI{r,{},{},{}}; VI f; auto e=c.coarsest(); for(auto i=c.finest();;++i){ f.push_back((*i).size()); red.push_back(i.isRedistributed()?i.getRedistributed().size():0); if(i==e) break; }
    auto b=h.finest(); for(auto i=h.coarsest();;--i){ back.push_back(i->size()); if(i==b) break; } return VVI{r,f,back,red}; };
  auto some=[&](H& h,int n){ std::vector<Call> r; for(int k=0;k<n;k++){ int v=g.in(1,20); typename H::Arguments a=v; switch(levels?g.below(5):g.below(2)){ case 0: h.addCoarser(a); r.push_back({"coarser",{v}}); ++levels; break; case 1: h.addFiner(a); r.push_back({"finer",{v}}); ++levels; break;
      case 2: h.addRedistributedOnCoarsest(a); r.push_back({"red",{v}}); break;
      case 3: { int l=g.below(levels); auto i=h.finest(); for(int q=0;q<l;q++) ++i; i->resize(v); r.push_back({"set",{v,l+1}}); break; }
      default: { int l=g.below(levels); auto i=h.finest(); for(int q=0;q<l;q++) ++i; if(g.chance(50)){ i.addRedistributed(std::make_shared<T>(v)); r.push_back({"redat",{v,l+1}}); } else { i.deleteRedistributed(); r.push_back({"redat",{0,l+1}}); } } } } return r; };
  auto a=some(*h,g.below(7)); H c(*h); auto b=some(*h,g.below(5)); auto og=look(*h), cp=look(c); if(g.chance(50)){ h.reset(); cp=look(c); }
  std::cout<<Obj().f("kind","cont").f("first",first?v0:0).raw("pre",shown(a)).raw("calls",shown(b)).f("orig",og).f("copy",cp).str()<<"\n"; }
int main(int argc,char** argv){ Rng g(std::atoi(argv[1])); int N=std::atoi(argv[2]); dinfo.push(false); dverb.push(false); dvverb.push(false);
  alarm(600);
  for(int i=0;i<N;i++){
    using namespace Amg; bool neg=g.chance(15); using A=Mx<1>; using C=Mx<2>;
    switch(g.below(12)){
      case 0: agg<1,SymmetricDependency<A,FirstDiagonal>>(g,"sym","diag0",g.below(3),neg); break;
      case 1: agg<1,Dependency<A,FirstDiagonal>>(g,"unsym","diag0",g.below(3),neg); break;
      case 2: agg<1,SymmetricMatrixDependency<A,FirstDiagonal>>(g,"symmat","diag0",0,neg); break;
      case 3: agg<1,SymmetricDependency<A,RowSum>>(g,"sym","rowsum",g.below(3),neg); break;
      case 4: agg<1,SymmetricDependency<A,FrobeniusNorm>>(g,"sym","rowsum",g.below(3),neg); break;
      case 5: agg<1,SymmetricDependency<A,AlwaysOneNorm>>(g,"sym","one",g.below(3),neg); break;
      case 6: agg<2,SymmetricDependency<C,Diagonal<0>>>(g,"sym","diag0",g.below(3),neg); break;
      case 7: agg<2,SymmetricDependency<C,Diagonal<1>>>(g,"sym","diag1",g.below(3),neg); break;
      case 8: agg<2,SymmetricDependency<C,RowSum>>(g,"sym","rowsum",g.below(3),neg); break;
      case 9: agg<2,Dependency<C,Diagonal<1>>>(g,"unsym","diag1",g.below(3),neg); break;
      case 10: agg<2,SymmetricMatrixDependency<C,Diagonal<1>>>(g,"symmat","diag1",0,neg); break;
      default: agg<2,SymmetricMatrixDependency<C,RowSum>>(g,"symmat","rowsum",0,neg); }
    if(i%4==0) param<CoarsenCriterion<SymmetricCriterion<A,FirstDiagonal>>>(g,"sym"); if(i%4==2) param<CoarsenCriterion<UnSymmetricCriterion<C,RowSum>>>(g,"unsym");
    if(i%4==1) container(g);
    if(i%3==0) hier<1>(g); if(i%5==0) hier<2>(g); if(i%3==1) transfer<1>(g); if(i%3==2) transfer<2>(g); } }
