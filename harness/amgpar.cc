// Records the AMG hierarchies of distributed matrices on 1..4 MPI processes for spec/AmgPar.tla.
#include <config.h>
#include "fp.hh"
#include <fstream>
#include <map>
#include <dune/common/parallel/mpihelper.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/owneroverlapcopy.hh>
#include <dune/istl/schwarz.hh>
#include <dune/istl/paamg/matrixhierarchy.hh>
#include <dune/istl/paamg/pinfo.hh>
#include <unistd.h>
using namespace Dune; using vt::Rng; using vt::Obj; using OS=OwnerOverlapCopyAttributeSet;
int rank,np; std::ofstream out; using VI=std::vector<int>; using VVI=std::vector<VI>;
std::string gatherS(const std::string& s){ int n=int(s.size()); VI ns(np),ds(np); MPI_Gather(&n,1,MPI_INT,ns.data(),1,MPI_INT,0,MPI_COMM_WORLD); int tot=0; for(int p=0;p<np;++p){ ds[p]=tot; tot+=ns[p]; } std::string all(tot+1,' '); MPI_Gatherv(s.data(),n,MPI_CHAR,all.data(),ns.data(),ds.data(),MPI_CHAR,0,MPI_COMM_WORLD); if(rank) return ""; std::string r="["; for(int p=0;p<np;++p) r+=(p?",":"")+all.substr(ds[p],ns[p]); return r+"]"; }
template<int B> using Mx=BCRSMatrix<FieldMatrix<double,B,B>>;
template<int B> VVI blocks(const Mx<B>& m){ VVI r; for(auto i=m.begin();i!=m.end();++i) for(auto j=i->begin();j!=i->end();++j){ VI e{int(i.index()),int(j.index())}; for(int k=0;k<B;k++) for(int l=0;l<B;l++) e.push_back(std::llround((*j)[k][l])); r.push_back(e); } return r; }
template<class MP> VI mapOf(const MP& a){ VI r; for(auto x:a) r.push_back(x==MP::ISOLATED?-1: x==MP::UNAGGREGATED?-2:int(x)); return r; }
template<class M> struct Policy : Amg::Parameters {
  typedef M Matrix; typedef typename M::row_type Row; typedef typename M::ConstColIterator ColIter; std::uint64_t key=1; int strongPct=100,isoPct=0; const M* m=nullptr; int row=0;
  Policy()=default; Policy(const Amg::Parameters& p):Amg::Parameters(p){}
  bool h(std::uint64_t a,std::uint64_t b,int pct) const { Rng r(key*1000003+a*1009+b*31+m->N()*77); return r.chance(pct); }
  void init(const Matrix* mm){ m=mm; } void initRow(const Row&,int i){ row=i; } void examine(const ColIter&){}
  template<class G> void examine(G& g,const typename G::EdgeIterator& e,const ColIter& c){ auto a=std::min<std::size_t>(row,c.index()), b=std::max<std::size_t>(row,c.index());
    if(h(a,b,strongPct)){ e.properties().setDepends(); e.properties().setInfluences(); auto& o=g.getEdgeProperties(e.target(),e.source()); o.setInfluences(); o.setDepends(); } }
  bool isIsolated(){ return h(row,row,isoPct); } };
template<class C> std::string info(const C& c,int n){ // the index set and what an owner-to-all exchange delivers
  VVI ix; for(auto& p:c.indexSet()) ix.push_back({int(p.local().local()),int(p.global()),int(p.local().attribute())});
  BlockVector<FieldVector<int,1>> x(n),y(n); VI own(n,1); for(auto& q:ix) if(q[0]>=0&&q[0]<n) own[q[0]]= q[2]==OS::owner; for(int i=0;i<n;++i){ x[i]= own[i]?1000*(rank+1)+i:-1; y[i]=x[i]; } c.copyOwnerToAll(x,y); VI ex; for(auto& e:y) ex.push_back(e[0]);
  return Obj().f("n",n).f("ix",ix).f("ex",ex).f("size",int(c.communicator().size())).str().substr(1); }
template<int B> void one(Rng& g){
  using M=Mx<B>; using V=BlockVector<FieldVector<double,B>>; using Comm=OwnerOverlapCopyCommunication<int>; using LI=typename Comm::ParallelIndexSet::LocalIndex; using Op=OverlappingSchwarzOperator<M,V,V,Comm>;
  using Crit=Amg::CoarsenCriterion<Amg::AggregationCriterion<Policy<M>>>; using H=Amg::MatrixHierarchy<Op,Comm>; using OF=NegateSet<typename Comm::OwnerSet>;
  int ng=g.in(g.chance(20)?1:2*np,16), dens=g.in(0,25); std::vector<std::vector<char>> pat(ng,std::vector<char>(ng)); for(int i=0;i<ng;++i){ pat[i][i]=1; for(int j=0;j<i;++j) if(g.chance(dens)||(j==i-1&&g.chance(85))) pat[i][j]=pat[j][i]=1; }
  VI ow(ng); int mode=g.below(4); for(int i=0;i<ng;++i) ow[i]= mode==0? i*np/ng : mode==1? (i/2)%np : mode==2? int(g.below(np)) : std::min<int>(i*(np+1)/ng,np-1);
  int extra=g.chance(30)?15:0, at2=g.chance(50)?0:50; std::vector<VI> at(np,VI(ng)); for(int i=0;i<ng;++i) at[ow[i]][i]=1;
  for(int i=0;i<ng;++i) for(int j=0;j<ng;++j) if(pat[i][j]&&!at[ow[i]][j]) at[ow[i]][j]=g.chance(at2)?2:3;
  for(int p=0;p<np;++p) for(int i=0;i<ng;++i) if(!at[p][i]&&g.chance(extra)) at[p][i]=3;
  std::vector<VVI> val(ng,VVI(ng,VI(B*B))); auto fill=[&]{ for(auto& r:val) for(auto& e:r) for(auto& x:e) x=g.in(-9,9); }; fill();
  VI gid(ng); { int cur=0; for(int i=0;i<ng;++i){ gid[i]=cur; cur+=g.in(1,3); } if(g.chance(50)) for(int i=ng-1;i>0;--i) std::swap(gid[i],gid[g.below(i+1)]); }
  int inner=g.chance(50)?100:g.in(0,100), cc=g.in(0,100); VI inset(ng); for(int i=0;i<ng;++i){ bool shared=false; for(int p=0;p<np;++p) if(p!=ow[i]&&at[p][i]) shared=true; inset[i]=shared||g.chance(inner); }
  std::vector<std::vector<char>> both(ng,std::vector<char>(ng)); for(int i=0;i<ng;++i) for(int j=0;j<i;++j) both[i][j]=both[j][i]=g.chance(cc);
  int maxl=g.in(0,3), target=g.in(0,4), rate=g.in(8,12), acc=g.below(3); 
  Crit c; c.setMaxLevel(maxl); c.setCoarsenTarget(target); c.setMinCoarsenRate(rate/8.0); c.setProlongationDampingFactor(1); c.setAccumulate(acc==0?Amg::noAccu:acc==1?Amg::atOnceAccu:Amg::successiveAccu); c.setMinAggregateSize(g.in(1,2)); c.setMaxAggregateSize(g.in(2,3)); c.setMaxDistance(2); c.setSkipIsolated(g.chance(60)); c.setDebugLevel(0); c.setUseFixedOrder(g.chance(50));
  c.key=g.below(1000000); c.strongPct=g.chance(50)?100:g.in(30,90); c.isoPct=g.chance(40)?g.in(5,40):0; bool again=g.chance(50);
  Rng h(g.s*31+rank*17+5); VI mine; for(int i=0;i<ng;++i) if(at[rank][i]) mine.push_back(i); int nl=int(mine.size()); if(h.chance(70)) for(int i=nl-1;i>0;--i) std::swap(mine[i],mine[h.below(i+1)]);
  Comm comm(MPI_COMM_WORLD,SolverCategory::overlapping); auto& pis=comm.indexSet(); pis.beginResize(); for(int k=0;k<nl;++k) if(inset[mine[k]]) pis.add(gid[mine[k]],LI(k,OS::AttributeSet(at[rank][mine[k]]),true)); pis.endResize(); comm.remoteIndices().template rebuild<false>();
  M a(nl,nl,M::row_wise); auto pr=[&](int i,int j){ return i==j||(pat[i][j]&&(at[rank][i]==1||at[rank][j]==1||both[i][j])); };
  for(auto r=a.createbegin();r!=a.createend();++r) for(int j=0;j<nl;++j) if(pr(mine[r.index()],mine[j])) r.insert(j);
  auto load=[&](M& m){ for(auto r=m.begin();r!=m.end();++r) for(auto e=r->begin();e!=r->end();++e){ int i=mine[r.index()],j=mine[e.index()]; for(int k=0;k<B;++k) for(int l=0;l<B;++l) (*e)[k][l]= at[rank][i]==1? val[i][j][k*B+l] : (i==j&&k==l?1:0); } }; load(a);
  std::string lv, what="ok"; int levels=0,maxlevels=0; bool has=false,built=false; VI fine(mine);
  { auto op=std::make_shared<Op>(a,comm); H hi(op,stackobject_to_shared_ptr(comm)); hi.template build<OF>(c); levels=hi.levels(); maxlevels=hi.maxlevels(); has=hi.hasCoarsest(); built=hi.isBuilt();
    if(again){ fill(); load(const_cast<M&>(hi.matrices().finest()->getmat())); hi.recalculateGalerkin(OF()); }
    auto am=hi.aggregatesMaps().begin(); auto mt=hi.matrices().finest(); auto pi=hi.parallelInformation().finest();
    for(int l=0;l<levels;++l){ Obj o; bool red=mt.isRedistributed(); std::string r="[]"; if(red){ const M& rm=mt.getRedistributed().getmat(); auto& rc=pi.getRedistributed(); bool in=rc.communicator().size()>0; std::string q=Obj().f("a",in?blocks<B>(rm):VVI()).str(); q.pop_back(); r="["+(in? q+","+info(rc,int(rm.N())) : Obj().f("a",VVI()).f("n",int(rm.N())).f("ix",VVI()).f("ex",VI()).f("size",0).str())+"]"; }
      std::string s=Obj().f("a",blocks<B>(mt->getmat())).f("map",l+1<levels?mapOf(**am):VI()).raw("red",r).str(); s.pop_back(); lv+=(l?",":"")+s+","+info(*pi,int(mt->getmat().N())); if(l+1<levels){ ++mt; ++am; ++pi; } }
  }
  auto jl=gatherS("["+lv+"]"), jx=gatherS(Obj().f("levels",levels).f("maxlevels",maxlevels).f("has",has).f("built",built).f("loc",fine).str());
  if(rank==0){ VVI f; for(int i=0;i<ng;++i) for(int j=0;j<ng;++j) if(pat[i][j]){ VI e{i,j}; for(int x:val[i][j]) e.push_back(x); f.push_back(e); }
    out<<Obj().f("kind","par").f("bs",B).f("np",np).f("ng",ng).f("ow",ow).f("acc",acc).f("maxl",maxl).f("target",target).f("skip",bool(c.skipIsolated())).f("a",f).raw("pr",jx).raw("lev",jl).str()<<std::endl; } }
int main(int argc,char** argv){ MPIHelper::instance(argc,argv); MPI_Comm_rank(MPI_COMM_WORLD,&rank); MPI_Comm_size(MPI_COMM_WORLD,&np); if(rank==0) out.open(argv[1]); Rng g(std::stoul(argv[2])); int cnt=std::stoi(argv[3]); dinfo.push(false); dverb.push(false); dvverb.push(false); if(argc<=4) std::cerr.setstate(std::ios::failbit);
  for(int k=0;k<cnt;++k){ one<1>(g); if(k%2==0) one<2>(g); }
  out.close(); MPI_Barrier(MPI_COMM_WORLD); if(rank==0) std::cout<<"RECORDS"<<std::endl; return 0; }
