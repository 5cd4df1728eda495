// Records histories of owner/overlap/copy communications between MPI processes.
#include <config.h>
#include "fp.hh"
#include <cmath>
#include <fstream>
#include <set>
#include <dune/common/parallel/mpihelper.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/owneroverlapcopy.hh>
using namespace Dune; using vt::Rng; using vt::Obj; using OS=OwnerOverlapCopyAttributeSet;
int rank,np; std::ofstream out;
using Tab=std::vector<std::vector<int>>;      // [p][g]
struct Dist { int ng; Tab at; std::vector<std::vector<int>> pub; std::vector<long> id; };
std::string jt(const Tab& t,bool b=false){ std::string r="["; for(std::size_t p=0;p<t.size();++p){ r+=p?",[":"["; for(std::size_t g=0;g<t[p].size();++g){ if(g) r+=","; r+= b?(t[p][g]?"true":"false"):std::to_string(t[p][g]); } r+="]"; } return r+"]"; }
Tab gather(const std::vector<int>& mine){ int n=int(mine.size()); std::vector<int> all(n*np+1); MPI_Gather(mine.data(),n,MPI_INT,all.data(),n,MPI_INT,0,MPI_COMM_WORLD); Tab t(np,std::vector<int>(n)); for(int p=0;p<np;++p) for(int g=0;g<n;++g) t[p][g]=all[p*n+g]; return t; }
template<class B> struct C { static constexpr int n=1; static B& at(B& b,int){ return b; } };
template<class T,int k> struct C<FieldVector<T,k>> { static constexpr int n=k; static T& at(FieldVector<T,k>& b,int i){ return b[i]; } };
template<class GI> GI gid(long x){ return GI(x); }
template<> std::pair<int,int> gid<std::pair<int,int>>(long x){ return {int(x%3),int(x)}; }
template<class B,class GI=int> void hist(const Dist& d,Rng& gg,int nops){ using V=BlockVector<B>; using Comm=OwnerOverlapCopyCommunication<GI>; using LI=typename Comm::ParallelIndexSet::LocalIndex; constexpr int nc=C<B>::n;
  Rng g(gg.s*7+rank*13+1); int mode=int(gg.below(5)); bool allpub=true; for(auto& r:d.pub) for(int x:r) allpub&=x; if(!allpub) mode=mode%2?0:4; std::string err; bool priv=true;
  if constexpr(!std::is_same_v<GI,int>) if(mode==1) mode=0;
  std::vector<int> mine; for(int i=0;i<d.ng;++i) if(d.at[rank][i]) mine.push_back(i); int extra=int(g.below(3)), n=int(mine.size())+extra; std::vector<int> loc(n); for(int i=0;i<n;++i) loc[i]=i; for(int i=n-1;i>0;--i) std::swap(loc[i],loc[g.below(i+1)]);
  std::shared_ptr<Comm> c;
  try {
  if(mode==1){ if constexpr(std::is_same_v<GI,int>){ IndexInfoFromGrid<int,int> info; for(std::size_t k=0;k<mine.size();++k){ info.addLocalIndex({int(d.id[mine[k]]),loc[k],d.at[rank][mine[k]]}); for(int p=0;p<np;++p) if(p!=rank&&d.at[p][mine[k]]) info.addRemoteIndex({p,int(d.id[mine[k]]),d.at[p][mine[k]]}); } c=std::make_shared<Comm>(info,MPI_COMM_WORLD); if(gg.chance(40)){ c->remoteIndices().template rebuild<true>(); c->remoteIndices().template rebuild<false>(); } } }
  else { c=std::make_shared<Comm>(MPI_COMM_WORLD); auto& pis=c->indexSet(); std::vector<int> ord(mine.size()); for(std::size_t k=0;k<ord.size();++k) ord[k]=int(k); for(int k=int(ord.size())-1;k>0;--k) std::swap(ord[k],ord[g.below(k+1)]);
    std::size_t half= mode==4? g.below(ord.size()+1):0; auto add=[&](std::size_t a,std::size_t b){ pis.beginResize(); for(std::size_t k=a;k<b;++k) pis.add(gid<GI>(d.id[mine[ord[k]]]),LI(loc[ord[k]],OS::AttributeSet(d.at[rank][mine[ord[k]]]),bool(d.pub[rank][mine[ord[k]]]))); pis.endResize(); };
    if(mode==4){ add(0,half); c->remoteIndices().template rebuild<false>(); } add(half,ord.size());
    if(mode==2){ std::set<int> nb; bool ok=true; for(int p=0;p<np;++p){ int h=0; for(int q=0;q<np;++q) if(q!=p) for(int i=0;i<d.ng;++i) if(d.at[p][i]&&d.at[q][i]){ ++h; if(p==rank) nb.insert(q); } ok&=h>0; } if(ok) c->remoteIndices().setNeighbours(nb); }
    if(mode==3) c->remoteIndices().template rebuild<true>(); else c->remoteIndices().template rebuild<false>(); }
  } catch(Dune::Exception& e){ err=e.what(); }
  const char* OPS[]={"copyOwnerToAll","copyCopyToAll","addOwnerOverlapToAll","addOwnerCopyToAll","addOwnerCopyToOwnerCopy","project"};
  V x(n),y(n); auto rnd=[&](V& v){ for(auto& e:v) for(int k=0;k<nc;++k) C<B>::at(e,k)=int(g.in(-99,99)); }; rnd(x); rnd(y);
  auto view=[&](V& v,int k){ std::vector<int> r(d.ng); for(std::size_t m=0;m<mine.size();++m) r[mine[m]]=int(C<B>::at(v[loc[m]],k)); return gather(r); };
  auto privs=[&](V& v){ std::vector<int> r; for(int m=int(mine.size());m<n;++m) for(int k=0;k<nc;++k) r.push_back(int(C<B>::at(v[loc[m]],k))); return r; };
  std::string steps="["; bool first=true;
  if(err.empty()) for(int s=0;s<nops;++s){ int o=int(gg.below(6)); int how=int(gg.below(3)); if(gg.chance(25)){ rnd(x); } if(gg.chance(25)) rnd(y); V& a= how==1? y:x; V& b= how==0? x: how==1? x : y; if(o==5){ } bool alias=&a==&b;
    std::vector<Tab> s0,d0; for(int k=0;k<nc;++k){ s0.push_back(view(a,k)); d0.push_back(view(b,k)); } auto p0=privs(b),q0=privs(a);
    switch(o){ case 0: c->copyOwnerToAll(a,b); break; case 1: c->copyCopyToAll(a,b); break; case 2: c->addOwnerOverlapToAll(a,b); break; case 3: c->addOwnerCopyToAll(a,b); break; case 4: c->addOwnerCopyToOwnerCopy(a,b); break; case 5: c->project(b); break; }
    priv&= privs(b)==p0&&privs(a)==q0;
    for(int k=0;k<nc;++k){ auto r=view(b,k); auto s2=view(a,k); if(rank==0){ steps+=(first?"":",")+Obj().f("op",std::string(OPS[o])).f("alias",alias).raw("src",jt(s0[k])).raw("dst",jt(d0[k])).raw("res",jt(r)).raw("src2",jt(s2)).str(); first=false; } } }
  // local to global lookup: with and without a given size, kept while the index set stays as it is, renewed when it changes
  if(err.empty()&&gg.chance(60)){ int w=int(gg.below(3)), known=int(mine.size()); auto look=[&](int lim){ int size=int(c->globalLookup().size()); std::vector<int> f; for(int l=0;l<lim;++l){ auto* pr=l<size? c->globalLookup().pair(l):nullptr; int r=0; if(pr) for(int m=0;m<known;++m) if(pr->global()==gid<GI>(d.id[mine[m]])) r=mine[m]+1; if(pr&&int(pr->local().local())!=l) r=-1; f.push_back(r); } return f; };
    auto wide=[&](const std::vector<int>& v){ std::vector<int> r(d.ng+3); for(std::size_t i=0;i<v.size()&&i<r.size();++i) r[i]=v[i]; return gather(r); }; auto lt=[&]{ std::vector<int> r(d.ng); for(int m=0;m<known;++m) r[mine[m]]=loc[m]+1; return gather(r); }; int top=0; for(int m=0;m<known;++m) top=std::max(top,loc[m]+1);
    auto build=[&](int how,int size){ if(how==0){ c->buildGlobalLookup(); } else c->buildGlobalLookup(size); };
    auto rec=[&](const char* op){ bool same=int(c->globalLookup().size())>=top; int cnt=0; for(auto it=c->globalLookup().begin();it!=c->globalLookup().end();++it) ++cnt; auto t=wide(look(n)); auto l=lt(); std::vector<int> okv={same&&cnt==known}; auto o=gather(okv); if(rank==0) out<<Obj().f("kind",std::string("lookup")).f("op",std::string(op)).f("np",np).f("ng",d.ng).raw("loc",jt(l)).raw("found",jt(t)).raw("sizes",jt(o)).str()<<"\n"; };
    build(w==0?0:1,n); rec("first"); build(gg.chance(50)?0:1,n); rec("again");
    if(gg.chance(60)){ if(known){ int gone=int(g.below(known)); c->indexSet().beginResize(); for(auto it=c->indexSet().begin();it!=c->indexSet().end();++it) if(it->global()==gid<GI>(d.id[mine[gone]])){ c->indexSet().markAsDeleted(it); break; } c->indexSet().endResize(); mine.erase(mine.begin()+gone); loc.erase(loc.begin()+gone); --known; top=0; for(int m=0;m<known;++m) top=std::max(top,loc[m]+1); } int how=int(gg.below(2)); build(how,n); rec("changed"); }
    c->freeGlobalLookup(); int how=int(gg.below(2)); build(how,n); rec("rebuilt"); if(gg.chance(50)) c->freeGlobalLookup(); }
  int pv=priv; int all; MPI_Reduce(&pv,&all,1,MPI_INT,MPI_MIN,0,MPI_COMM_WORLD);
  if(rank==0) out<<Obj().f("kind",std::string("hist")).f("mode",mode).f("np",np).f("ng",d.ng).raw("at",jt(d.at)).raw("pub",jt(d.pub,true)).raw("steps",steps+"]").f("priv",bool(all)).f("err",err).str()<<"\n"; }
void run1(const Dist& d,Rng& gg,int nops){ switch(gg.below(4)){ case 0: hist<double>(d,gg,nops); break; case 1: hist<FieldVector<double,2>>(d,gg,nops); break; case 2: hist<FieldVector<int,1>>(d,gg,nops); break; case 3: hist<FieldVector<double,3>,std::pair<int,int>>(d,gg,nops); break; } }
Dist blank(int ng,Rng& gg){ Dist d; d.ng=ng; d.at.assign(np,std::vector<int>(ng)); d.pub.assign(np,std::vector<int>(ng,1)); for(int g=0;g<ng;++g) d.id.push_back(5*g+gg.below(5)); for(int g=ng-1;g>0;--g) std::swap(d.id[g],d.id[gg.below(g+1)]); return d; }
int main(int argc,char** argv){ MPIHelper::instance(argc,argv); MPI_Comm_rank(MPI_COMM_WORLD,&rank); MPI_Comm_size(MPI_COMM_WORLD,&np); if(rank==0) out.open(argv[1]); Rng gg(std::stoul(argv[2])); int cnt=std::stoi(argv[3]), eng=std::stoi(argv[4]);
  // every distribution of eng indices
  if(eng){ long per=np; for(int p=1;p<np;++p) per*=3; long tot=1; for(int g=0;g<eng;++g) tot*=per;
    for(long k=0;k<tot;++k){ Dist d=blank(eng,gg); long r=k; for(int g=0;g<eng;++g){ long e=r%per; r/=per; int ow=int(e%np); e/=np; static const int A[]={0,2,3}; for(int p=0;p<np;++p) if(p==ow) d.at[p][g]=1; else { d.at[p][g]=A[e%3]; e/=3; } } run1(d,gg,4); } }
  for(int k=0;k<cnt;++k){ Dist d=blank(int(gg.in(0,7)),gg); int pa=int(gg.in(0,100)); bool priv=gg.chance(25); for(int g=0;g<d.ng;++g){ int ow=int(gg.below(np)); if(gg.chance(20)) ow=0; for(int p=0;p<np;++p){ d.at[p][g]= p==ow?1: gg.chance(pa)? (gg.chance(50)?2:3):0; if(priv&&gg.chance(20)) d.pub[p][g]=0; } } run1(d,gg,int(gg.in(1,7))); }
  // remote information about an index the process does not have
  for(int k=0;k<cnt/8;++k){ IndexInfoFromGrid<int,int> info; int n=int(gg.below(4)); for(int i=0;i<n;++i) info.addLocalIndex({2*i,i,int(gg.in(1,3))}); bool th=false; if(n&&gg.chance(50)) info.addRemoteIndex({(rank+1)%np,0,3}); info.addRemoteIndex({(rank+1)%np,2*int(gg.below(5))+1,1}); try { OwnerOverlapCopyCommunication<int> c(info,MPI_COMM_WORLD); } catch(ISTLError& e){ th=true; } if(rank==0) out<<Obj().f("kind",std::string("missing")).f("n",n).f("thrown",th).str()<<"\n"; }
  for(int a:{0,4,17}){ bool t1=false,t2=false; IndexInfoFromGrid<int,int> info; try { info.addLocalIndex({0,0,a}); } catch(ISTLError&){ t1=true; } try { info.addRemoteIndex({0,0,a}); } catch(ISTLError&){ t2=true; } if(rank==0) out<<Obj().f("kind",std::string("missing")).f("n",-a).f("thrown",t1&&t2).str()<<"\n"; }
  out.close(); MPI_Barrier(MPI_COMM_WORLD); if(rank==0) std::cout<<"RECORDS"<<std::endl; return 0; }
