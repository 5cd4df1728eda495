// Records distributed applications of AMG and KAMG over GF(P), together with the global form of the hierarchy
// they work on, for spec/AmgCycle.tla.
#include <config.h>
#include "fp.hh"
#include <fstream>
#include <map>
#include <dune/common/parallel/mpihelper.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/owneroverlapcopy.hh>
#include <dune/istl/schwarz.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/paamg/amg.hh>
#include <dune/istl/paamg/kamg.hh>
#include <dune/istl/paamg/pinfo.hh>
#include "counted.hh"
using namespace Dune; using vt::Fp; using vt::Rng; using vt::Obj; using OS=OwnerOverlapCopyAttributeSet;
int rank,np; std::ofstream out; using VI=std::vector<int>; using Mat=std::vector<std::vector<Fp>>; using VF=std::vector<Fp>;
template<class M> struct Policy : Amg::Parameters {
  typedef M Matrix; typedef typename M::row_type Row; typedef typename M::ConstColIterator ColIter; std::uint64_t key=1; int strongPct=100,isoPct=0; const M* m=nullptr; int row=0;
  Policy()=default; Policy(const Amg::Parameters& p):Amg::Parameters(p){}
  bool h(std::uint64_t a,std::uint64_t b,int pct) const { Rng r(key*1000003+a*1009+b*31+m->N()*77); return r.chance(pct); }
  void init(const Matrix* mm){ m=mm; } void initRow(const Row&,int i){ row=i; } void examine(const ColIter&){}
  template<class G> void examine(G& g,const typename G::EdgeIterator& e,const ColIter& c){ auto a=std::min<std::size_t>(row,c.index()), b=std::max<std::size_t>(row,c.index());
    if(h(a,b,strongPct)){ e.properties().setDepends(); e.properties().setInfluences(); auto& o=g.getEdgeProperties(e.target(),e.source()); o.setInfluences(); o.setDepends(); } }
  bool isIsolated(){ return h(row,row,isoPct); } };
// the places of the local unknowns in the global numbering of a level
struct Pl { VI pos; std::vector<char> own; int N=0; };
int total(int x,MPI_Comm c=MPI_COMM_WORLD){ int r; MPI_Allreduce(&x,&r,1,MPI_INT,MPI_SUM,c); return r; }
VI join(const VI& a){ int n=int(a.size()); VI ns(np),ds(np); MPI_Allgather(&n,1,MPI_INT,ns.data(),1,MPI_INT,MPI_COMM_WORLD); int t=0; for(int p=0;p<np;++p){ ds[p]=t; t+=ns[p]; } VI r(t); MPI_Allgatherv(a.data(),n,MPI_INT,r.data(),ns.data(),ds.data(),MPI_INT,MPI_COMM_WORLD); return r; }
void sum(VF& v,MPI_Comm c=MPI_COMM_WORLD){ VI a,b(v.size()); for(auto& x:v) a.push_back(int(x.v)); MPI_Allreduce(a.data(),b.data(),int(a.size()),MPI_INT,MPI_SUM,c); for(std::size_t k=0;k<v.size();++k) v[k]=Fp(b[k]); }
void sum(Mat& m){ for(auto& r:m) sum(r); }
template<class Comm> Pl place(const Comm* c,int n,bool& bad){ VI g; if(c) for(auto& p:c->indexSet()) if(p.local().attribute()==OS::owner) g.push_back(int(p.global())); auto all=join(g); std::sort(all.begin(),all.end()); for(std::size_t k=1;k<all.size();++k) if(all[k]==all[k-1]) bad=true;
  Pl r; r.N=int(all.size()); if(!c) return r; r.pos.assign(n,-1); r.own.assign(n,0); for(auto& p:c->indexSet()){ auto it=std::lower_bound(all.begin(),all.end(),int(p.global())); if(it==all.end()||*it!=int(p.global())){ bad=true; continue; } r.pos[p.local().local()]=int(it-all.begin()); r.own[p.local().local()]=p.local().attribute()==OS::owner; } for(int x:r.pos) if(x<0) bad=true; return r; }
template<class M> Mat dense(const M* m,const Pl& P){ constexpr int B=M::block_type::rows; Mat r(P.N*B,VF(P.N*B)); if(m) for(auto i=m->begin();i!=m->end();++i) if(P.own[i.index()]) for(auto j=i->begin();j!=i->end();++j) for(int k=0;k<B;++k) for(int l=0;l<B;++l) r[P.pos[i.index()]*B+k][P.pos[j.index()]*B+l]=(*j)[k][l]; sum(r); return r; }
template<class V> VF global(const V* v,const Pl& P){ constexpr int B=V::block_type::dimension; VF r(P.N*B); if(v) for(std::size_t i=0;i<v->size();++i) if(P.own[i]) for(int k=0;k<B;++k) r[P.pos[i]*B+k]=(*v)[i][k]; sum(r); return r; }
template<class V> bool consistent(const V& v,const VF& g,const Pl& P){ constexpr int B=V::block_type::dimension; for(std::size_t i=0;i<v.size();++i) for(int k=0;k<B;++k) if(v[i][k]!=g[P.pos[i]*B+k]) return false; return true; }
template<class V,class F> Mat probe(const Pl& P,bool here,F f){ constexpr int B=V::block_type::dimension; Mat r(P.N*B,VF(P.N*B)); std::size_t n=P.pos.size();
  for(int j=0;j<P.N;++j) for(int l=0;l<B;++l){ V d(n),v(n); d=0; v=0; for(std::size_t i=0;i<n;++i) if(P.own[i]&&P.pos[i]==j) d[i][l]=1; if(here) f(v,d); auto c=global(here?&v:nullptr,P); for(int i=0;i<P.N*B;++i) r[i][j*B+l]=c[i]; } return r; }
template<class M,class V> struct Coarse : InverseOperator<V,V> { Mat A,C; Pl P; MPI_Comm comm; int* calls;
  void apply(V& x,V& b,InverseOperatorResult& res) override { ++*calls; constexpr int B=V::block_type::dimension; int n=P.N*B; VF f(n),y(n);
    for(std::size_t i=0;i<b.size();++i) if(P.own[i]) for(int k=0;k<B;++k){ f[P.pos[i]*B+k]=b[i][k]; y[P.pos[i]*B+k]=x[i][k]; } sum(f,comm); sum(y,comm);
    for(int i=0;i<n;++i) for(int j=0;j<n;++j) f[i]-=A[i][j]*y[j];
    for(int i=0;i<n;++i) for(int j=0;j<n;++j) y[i]+=C[i][j]*f[j];
    for(std::size_t i=0;i<x.size();++i) for(int k=0;k<B;++k) x[i][k]=y[P.pos[i]*B+k]; for(auto& q:b) q=Fp(4711); res.converged=true; res.iterations=1; }
  void apply(V& x,V& b,double,InverseOperatorResult& r) override { apply(x,b,r); }
  SolverCategory::Category category() const override { return SolverCategory::overlapping; } };
template<class V> struct Rich : InverseOperator<V,V> { const LinearOperator<V,V>& A; Preconditioner<V,V>& P; int it;
  Rich(const LinearOperator<V,V>& a,const ScalarProduct<V>&,Preconditioner<V,V>& p,double,int n,int):A(a),P(p),it(n){}
  void apply(V& x,V& b,InverseOperatorResult& res) override { A.applyscaleadd(-1,x,b); for(int k=0;k<it;k++){ V c(x); c=0; V d(b); P.apply(c,d); x+=c; A.applyscaleadd(-1,c,b); } b=Fp(99); res.converged=true; }
  void apply(V& x,V& b,double,InverseOperatorResult& r) override { apply(x,b,r); }
  SolverCategory::Category category() const override { return SolverCategory::overlapping; } };
template<int B,template<class,class,class> class Sm> void one(Rng& g,const std::string& kind,const std::string& sname){
  using M=BCRSMatrix<FieldMatrix<Fp,B,B>>; using V=BlockVector<FieldVector<Fp,B>>; using Comm=OwnerOverlapCopyCommunication<int>; using LI=typename Comm::ParallelIndexSet::LocalIndex; using Op=OverlappingSchwarzOperator<M,V,V,Comm>; using S=Sm<M,V,Comm>;
  using Crit=Amg::CoarsenCriterion<Amg::AggregationCriterion<Policy<M>>>; using H=Amg::MatrixHierarchy<Op,Comm,std::allocator<V>>; using OF=NegateSet<typename Comm::OwnerSet>; vt::divzero=false;
  int ng=g.in(g.chance(15)?1:2*np,B==1?12:7), dens=g.in(0,20); std::vector<std::vector<char>> pat(ng,std::vector<char>(ng)); for(int i=0;i<ng;++i){ pat[i][i]=1; for(int j=0;j<i;++j) if(g.chance(dens)||(j==i-1&&g.chance(90))) pat[i][j]=pat[j][i]=1; }
  VI ow(ng); int mode=g.below(3); for(int i=0;i<ng;++i) ow[i]= mode==0? i*np/ng : mode==1? (i/2)%np : int(g.below(np)); int at2=0;
  std::vector<VI> at(np,VI(ng)); for(int i=0;i<ng;++i) at[ow[i]][i]=1; for(int i=0;i<ng;++i) for(int j=0;j<ng;++j) if(pat[i][j]&&!at[ow[i]][j]) at[ow[i]][j]=g.chance(at2)?2:3;
  Mat val(ng*B,VF(ng*B)); auto fill=[&]{ for(auto& r:val) for(auto& e:r) e=Fp(g.below(vt::P)); }; fill(); bool diri=g.chance(30); if(diri) for(int i=0;i<ng;++i) if(g.chance(25)) for(int j=0;j<ng;++j) if(j!=i) for(int k=0;k<B;++k) for(int l=0;l<B;++l) val[i*B+k][j*B+l]=0;
  Crit c; int acc=g.below(3); c.setMaxLevel(g.in(1,4)); c.setCoarsenTarget(g.in(1,3)); c.setMinCoarsenRate(1.0+0.125*g.below(2)); c.setProlongationDampingFactor(g.in(1,5)); c.setAccumulate(acc==0?Amg::noAccu:acc==1?Amg::atOnceAccu:Amg::successiveAccu); c.setMinAggregateSize(g.in(1,2)); c.setMaxAggregateSize(g.in(2,3)); c.setMaxDistance(2); c.setSkipIsolated(true); c.setDebugLevel(0); c.setUseFixedOrder(g.chance(50));
  c.setGamma(g.in(1,3)); c.setNoPreSmoothSteps(g.below(3)); c.setNoPostSmoothSteps(g.below(3)); c.setAdditive(kind=="add"); c.key=g.below(1000000); c.strongPct=g.chance(50)?100:70; c.isoPct=g.chance(30)?15:0;
  typename Amg::SmootherTraits<S>::Arguments sa; sa.iterations=g.in(1,2); sa.relaxationFactor=Fp(g.in(1,7)); int ksteps=g.in(1,3), k=g.in(1,3), cseed=g.below(1000000), again=g.chance(30), copyit=g.chance(30), twice=g.chance(50);
  Rng h(g.s*31+rank*17+5); VI mine; for(int i=0;i<ng;++i) if(at[rank][i]) mine.push_back(i); int nl=int(mine.size()); if(h.chance(70)) for(int i=nl-1;i>0;--i) std::swap(mine[i],mine[h.below(i+1)]);
  Comm comm(MPI_COMM_WORLD,SolverCategory::overlapping); auto& pis=comm.indexSet(); pis.beginResize(); for(int q=0;q<nl;++q) pis.add(mine[q],LI(q,OS::AttributeSet(at[rank][mine[q]]),true)); pis.endResize(); comm.remoteIndices().template rebuild<false>();
  M a(nl,nl,M::row_wise); auto pr=[&](int i,int j){ return i==j||(pat[i][j]&&(at[rank][i]==1||at[rank][j]==1)); }; for(auto r=a.createbegin();r!=a.createend();++r) for(int j=0;j<nl;++j) if(pr(mine[r.index()],mine[j])) r.insert(j);
  auto load=[&](M& m){ for(auto r=m.begin();r!=m.end();++r) for(auto e=r->begin();e!=r->end();++e){ int i=mine[r.index()],j=mine[e.index()]; for(int x=0;x<B;++x) for(int y=0;y<B;++y) (*e)[x][y]= at[rank][i]==1? val[i*B+x][j*B+y] : Fp(i==j&&x==y?1:0); } }; load(a);
  bool bad=false, cons=true; std::string lv,ap,what="ok"; int calls=0, levels=0, redL=0; Mat C; VF x0,b0,x1,b1;
  try { auto op=std::make_shared<Op>(a,comm); H hi(op,stackobject_to_shared_ptr(comm)); hi.template build<OF>(c); if(again){ fill(); load(const_cast<M&>(hi.matrices().finest()->getmat())); hi.recalculateGalerkin(OF()); }
    levels=hi.maxlevels(); int my=hi.levels(); auto am=hi.aggregatesMaps().begin(); auto mt=hi.matrices().finest(); auto pi=hi.parallelInformation().finest();
    std::vector<Pl> pl(levels+1), rp(levels+1); std::vector<char> isred(levels); Coarse<M,V> cs; cs.calls=&calls; cs.comm=MPI_COMM_NULL;
    { auto m2=mt; auto p2=pi; for(int l=0;l<levels;++l){ bool here=l<my; pl[l]=place(here?&*p2:(Comm*)nullptr,here?int(m2->getmat().N()):0,bad); bool r=here&&m2.isRedistributed(); isred[l]=total(r)>0; if(isred[l]){ ++redL; bool in=r&&p2.getRedistributed().communicator().size()>0; rp[l]=place(in?&p2.getRedistributed():(Comm*)nullptr,in?int(m2.getRedistributed().getmat().N()):0,bad); } if(here&&l+1<my){ ++m2; ++p2; } } }
    if(total(bad)){ what="numbering"; } else {
    for(int l=0;l<levels;++l){ bool here=l<my; const M* m=here?&mt->getmat():nullptr; auto A=dense(m,pl[l]); if(l+1<levels){
        VI map(pl[l].N,0),mp(pl[l].N); bool part=l+1<my; const Pl& F=isred[l]?rp[l]:pl[l]; if(part) for(std::size_t i=0;i<F.pos.size();++i) if(F.own[i]){ auto v=(**am)[i]; map[F.pos[i]]= v==Amg::AggregatesMap<std::size_t>::ISOLATED? 0 : pl[l+1].pos[v]+1; } MPI_Allreduce(map.data(),mp.data(),pl[l].N,MPI_INT,MPI_SUM,MPI_COMM_WORLD); for(auto& e:mp) --e;
        std::shared_ptr<S> s; if(here){ typename Amg::ConstructionTraits<S>::Arguments ca; ca.setArgs(sa); ca.setMatrix(*m); ca.setComm(*pi); s=Amg::ConstructionTraits<S>::construct(ca); }
        Mat pre=probe<V>(pl[l],here,[&](V& v,V& d){ Amg::SmootherApplier<S>::preSmooth(*s,v,d); }), post=probe<V>(pl[l],here,[&](V& v,V& d){ Amg::SmootherApplier<S>::postSmooth(*s,v,d); }), app=probe<V>(pl[l],here,[&](V& v,V& d){ s->apply(v,d); });
        lv+=(l?",":"")+Obj().f("A",A).f("map",mp).f("pre",pre).f("post",post).f("app",app).str(); if(part){ ++mt; ++am; ++pi; } }
      else { lv+=(l?",":"")+Obj().f("A",A).f("map",VI()).str(); Rng cg(cseed); int n=pl[l].N*B; C.assign(n,VF(n)); for(auto& r:C) for(auto& e:r) e=Fp(cg.below(vt::P)); cs.C=C; cs.A=A; if(isred[l]){ bool perm=rp[l].N!=pl[l].N; if(perm) what="unknowns lost"; cs.P=rp[l]; if(here&&pi.getRedistributed().communicator().size()>0) cs.comm=pi.getRedistributed().communicator(); } else { cs.P=pl[l]; if(here) cs.comm=pi->communicator(); } } }
    V x(nl),b(nl); for(auto& e:x) for(auto& q:e) q=Fp(h.below(vt::P)); for(auto& e:b) for(auto& q:e) q=Fp(h.below(vt::P)); x0=global(&x,pl[0]); b0=global(&b,pl[0]); comm.copyOwnerToAll(b,b);
    auto applies=[&](auto& p,int k){ for(int q=0;q<k;++q){ V v(nl),d(nl); v=0; for(int i=0;i<nl;++i) for(int z=0;z<B;++z) d[i][z]= at[rank][mine[i]]==1? Fp(h.below(vt::P)) : Fp(0); V dc(d); auto d0=global(&d,pl[0]); p.apply(v,d); auto gv=global(&v,pl[0]); cons&=consistent(v,gv,pl[0]); for(int i=0;i<nl;++i) cons&= d[i]==dc[i]; ap+=(ap.empty()?"":",")+Obj().f("d",d0).f("d1",global(&d,pl[0])).f("v",gv).str(); } };
    auto drive=[&](auto& p){ p.pre(x,b); x1=global(&x,pl[0]); b1=global(&b,pl[0]); cons&=consistent(x,x1,pl[0]); applies(p,k); p.post(x); if(twice){ V y(x),d(b); p.pre(y,d); applies(p,1); p.post(y); } };
    vt::smootherLog.clear(); if(what=="ok"){ if(kind=="kamg"){ Amg::KAMG<Op,V,S,Comm,Rich<V>> p(hi,cs,sa,c,ksteps,0.1); drive(p); } else { Amg::AMG<Op,V,S,Comm> p(hi,cs,sa,c); if(copyit){ Amg::AMG<Op,V,S,Comm> q(p); drive(q); } else drive(p); } } }
  } catch(Dune::Exception& e){ what=e.what(); } catch(std::exception& e){ what=e.what(); }
  bool sing= what.find("ingular")!=std::string::npos; if(total(vt::divzero||sing)) return; cons= total(!cons)==0; int tc=total(calls); int nok=total(what!="ok"); VI lg; if(sname=="jac") for(auto& e:vt::smootherLog){ for(int z:e) lg.push_back(z); lg.push_back(0); } lg=join(lg); std::vector<VI> proto(1); for(int z:lg) if(z) proto.back().push_back(z); else proto.push_back({}); proto.pop_back();
  if(rank==0) out<<Obj().f("kind",kind).f("sm",sname).f("np",np).f("acc",acc).f("red",redL).f("bs",B).f("n",ng*B).f("gamma",int(c.getGamma())).f("npre",int(c.getNoPreSmoothSteps())).f("npost",int(c.getNoPostSmoothSteps())).f("ksteps",ksteps).f("damp",int(c.getProlongationDampingFactor())).f("levels",levels).raw("lev","["+lv+"]").f("C",C).f("x0",x0).f("b0",b0).f("x1",x1).f("b1",b1).raw("ap","["+ap+"]").f("what",nok&&what=="ok"?std::string("failed elsewhere"):what).f("calls",tc).f("cons",cons).f("proto",proto).str()<<std::endl; }
template<class M,class V,class C> using PJac=BlockPreconditioner<V,V,C,vt::Counted<M,V,V>>; template<class M,class V,class C> using PSOR=BlockPreconditioner<V,V,C,SeqSOR<M,V,V>>; template<class M,class V,class C> using PILU=BlockPreconditioner<V,V,C,SeqILU<M,V,V>>; template<class M,class V,class C> using PSS=ParSSOR<M,V,V,C>;
int main(int argc,char** argv){ MPIHelper::instance(argc,argv); MPI_Comm_rank(MPI_COMM_WORLD,&rank); MPI_Comm_size(MPI_COMM_WORLD,&np); if(rank==0) out.open(argv[1]); Rng g(std::stoul(argv[2])); int cnt=std::stoi(argv[3]); dinfo.push(false); dverb.push(false); dvverb.push(false); std::cerr.setstate(std::ios::failbit);
  const char* kinds[]={"amg","amg","amg","add","kamg"};
  for(int k=0;k<cnt;++k){ std::string kd=kinds[g.below(5)]; switch(g.below(4)){ case 0: one<1,PJac>(g,kd,"jac"); break; case 1: one<1,PSOR>(g,kd,"sor"); break; case 2: one<1,PSS>(g,kd,"parssor"); break; default: if(g.chance(50)) one<2,PJac>(g,kd,"jac"); else one<2,PSOR>(g,kd,"sor"); } }
  out.close(); MPI_Barrier(MPI_COMM_WORLD); if(rank==0) std::cout<<"RECORDS"<<std::endl; return 0; }
