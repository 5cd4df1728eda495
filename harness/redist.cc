// Records redistributions of distributed matrices and vectors between MPI processes.
#include <config.h>
#include "fp.hh"
#include <fstream>
#include <map>
#include <dune/common/bigunsignedint.hh>
#include <dune/common/parallel/mpihelper.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/owneroverlapcopy.hh>
#include <dune/istl/paamg/graph.hh>
#include <dune/istl/repartition.hh>
#include <dune/istl/matrixredistribute.hh>
using namespace Dune; using vt::Rng; using vt::Obj; using OS=OwnerOverlapCopyAttributeSet;
int rank,np; std::ofstream out;
using Tab=std::vector<std::vector<int>>; using Dense=Tab;
std::string jt(const Tab& t){ std::string r="["; for(std::size_t i=0;i<t.size();++i) r+=(i?",":"")+vt::js(t[i]); return r+"]"; }
template<class B> struct E { static constexpr int n=1; static B& at(B& b,int,int){ return b; } static B& v(B& b,int){ return b; } using V=B; };
template<class T,int k> struct E<FieldMatrix<T,k,k>> { static constexpr int n=k; static T& at(FieldMatrix<T,k,k>& b,int i,int j){ return b[i][j]; } using V=FieldVector<T,k>; static T& v(V& b,int i){ return b[i]; } };
std::string gatherS(const std::string& s){ // rank 0: "[s0,s1,...]"
  int n=int(s.size()); std::vector<int> ns(np),ds(np); MPI_Gather(&n,1,MPI_INT,ns.data(),1,MPI_INT,0,MPI_COMM_WORLD); int tot=0; for(int p=0;p<np;++p){ ds[p]=tot; tot+=ns[p]; } std::string all(tot+1,' '); MPI_Gatherv(s.data(),n,MPI_CHAR,all.data(),ns.data(),ds.data(),MPI_CHAR,0,MPI_COMM_WORLD); if(rank) return ""; std::string r="["; for(int p=0;p<np;++p) r+=(p?",":"")+all.substr(ds[p],ns[p]); return r+"]"; }
long toL(long x){ return x; } long toL(int x){ return x; } template<int k> long toL(const bigunsignedint<k>& x){ return long(x.touint()); }
template<class GI> GI mk(long x){ return GI(x); }
template<class B,class GI> void one(Rng& g,const std::string& kind,bool nov,int nparts){
  using EB=E<B>; constexpr int n=EB::n; using V=BlockVector<typename EB::V>; using M=BCRSMatrix<B>; using Comm=OwnerOverlapCopyCommunication<GI>; using LI=typename Comm::ParallelIndexSet::LocalIndex;
  // global problem
  int ng= kind=="graph"? int(g.in(4*np,6*np)) : int(g.in(1,8)); int dens=kind=="graph"?int(g.in(5,40)):int(g.in(0,70)); std::vector<std::vector<char>> pat(ng,std::vector<char>(ng)); for(int i=0;i<ng;++i){ pat[i][i]=1; for(int j=0;j<i;++j) if(g.chance(dens)||(kind=="graph"&&j==i-1)) pat[i][j]=pat[j][i]=1; }
  Tab at(np,std::vector<int>(ng)); std::vector<int> ow(ng); for(int i=0;i<ng;++i) ow[i]= kind=="graph"? (i<np?i:int(g.below(np))) : int(g.below(np)); if(kind=="comm") for(int p=0;p<np&&p<ng;++p) ow[p]=p;
  int pc=int(g.in(30,100)), extra=int(g.in(0,30)), po=g.chance(50)?100:50; for(int i=0;i<ng;++i) at[ow[i]][i]=1;
  for(int i=0;i<ng;++i) for(int j=0;j<ng;++j) if(pat[i][j]&&!at[ow[i]][j]) at[ow[i]][j]= nov? (g.chance(pc)?3:2) : (g.chance(po)?3:2);
  for(int p=0;p<np;++p) for(int i=0;i<ng;++i) if(!at[p][i]&&g.chance(extra)) at[p][i]=g.chance(50)?2:3;
  if(kind=="comm"&&np>1) for(int p=0;p<np;++p) for(int q=0;q<np;++q){ } 
  auto bc=[&](int p,int i){ return at[p][i]==1||at[p][i]==3; };
  // local matrices: owner rows complete; others a random part of the pattern
  std::vector<std::vector<std::vector<char>>> lp(np,std::vector<std::vector<char>>(ng,std::vector<char>(ng))); int sub=int(g.in(0,100));
  for(int p=0;p<np;++p) for(int i=0;i<ng;++i) for(int j=0;j<ng;++j) if(at[p][i]&&at[p][j]&&pat[i][j]&&(at[p][i]==1||i==j||(nov&&at[p][i]==3&&bc(p,j)&&at[ow[i]][j]!=1&&at[ow[i]][j]!=3)||g.chance(sub))) lp[p][i][j]=1;
  auto values=[&]{ std::vector<Dense> L(np,Dense(ng*n,std::vector<int>(ng*n))); Dense A(ng*n,std::vector<int>(ng*n)); for(auto& r:A) for(auto& x:r) x=int(g.in(-99,99));
    for(int p=0;p<np;++p) for(int i=0;i<ng*n;++i) for(int j=0;j<ng*n;++j) if(lp[p][i/n][j/n]){ bool full= !nov? at[p][i/n]==1 : bc(p,i/n)&&bc(p,j/n)&&(at[p][i/n]==1||!bc(ow[i/n],j/n)); L[p][i][j]= full? A[i][j] : int(g.in(-99,99)); } return L; };
  auto L=values(), L2=values();
  std::vector<int> id; { for(int i=0;i<ng;++i) id.push_back(2*i+int(g.below(2))); for(int i=ng-1;i>0;--i) std::swap(id[i],id[g.below(i+1)]); }
  std::vector<int> hole(ng); for(int i=0;i<ng;++i){ bool single=true; for(int p=0;p<np;++p) if(p!=ow[i]&&at[p][i]) single=false; hole[i]=single&&g.chance(40); }
  std::vector<int> part(ng); for(auto& p:part) p=int(g.below(g.chance(70)?np:1)); int ncand=int(g.in(1,np)); for(auto& p:part) p%=ncand; if(g.chance(30)) for(auto& p:part) p=np-1-p;
  Rng h(g.s*31+rank*17+5); std::vector<int> mine,loc; for(int i=0;i<ng;++i) if(at[rank][i]) mine.push_back(i); int nl=int(mine.size()); for(int i=0;i<nl;++i) loc.push_back(i); if(g.chance(70)) for(int i=nl-1;i>0;--i) std::swap(loc[i],loc[h.below(i+1)]); std::vector<int> inv(nl); for(int k=0;k<nl;++k) inv[loc[k]]=mine[k];
  Comm comm(MPI_COMM_WORLD,nov?SolverCategory::nonoverlapping:SolverCategory::overlapping); auto& pis=comm.indexSet(); pis.beginResize(); for(int k=0;k<nl;++k) if(!hole[mine[k]]) pis.add(mk<GI>(id[mine[k]]),LI(loc[k],OS::AttributeSet(at[rank][mine[k]]),true)); pis.endResize(); comm.remoteIndices().template rebuild<false>();
  M a(nl,nl,M::row_wise); for(auto r=a.createbegin();r!=a.createend();++r) for(int j=0;j<nl;++j) if(lp[rank][inv[r.index()]][inv[j]]) r.insert(j);
  auto load=[&](const std::vector<Dense>& D){ for(auto r=a.begin();r!=a.end();++r) for(auto e=r->begin();e!=r->end();++e) for(int i=0;i<n;++i) for(int j=0;j<n;++j) EB::at(*e,i,j)=D[rank][inv[r.index()]*n+i][inv[e.index()]*n+j]; }; load(L);
  std::string err; std::shared_ptr<Comm> nc; RedistributeInformation<Comm> ri; bool ex=false; M nm;
  Amg::MatrixGraph<M> graph(a);
  if(kind=="graph") ex=graphRepartition(graph,comm,nparts,nc,ri.getInterface()); else if(kind=="comm") ex=commGraphRepartition(a,comm,nparts,nc,ri.getInterface());
  else { std::vector<int> rp(nl); for(int k=0;k<nl;++k) rp[loc[k]]=part[mine[k]]; comm.buildGlobalLookup(nl); fillIndexSetHoles(graph,comm); ex=buildCommunication(graph,rp,comm,nc,ri.getInterface()); }
  if(g.chance(50)) ri.setSetup();
  // global ids after filling the holes
  std::vector<long> gid(ng,-1), all(ng); for(auto& ip:comm.indexSet()) if(ip.local().attribute()==OS::owner) gid[inv[ip.local().local()]]=toL(ip.global()); MPI_Allreduce(gid.data(),all.data(),ng,MPI_LONG,MPI_MAX,MPI_COMM_WORLD);
  bool bij=true; std::map<long,int> back; for(int i=0;i<ng;++i){ bij&= all[i]>=0&&!back.count(all[i]); back[all[i]]=i; if(!hole[i]) bij&= all[i]==id[i]; } for(auto& ip:comm.indexSet()) bij&= back.count(toL(ip.global()))&&back[toL(ip.global())]==inv[ip.local().local()];
  int nn=int(nc->indexSet().size()); std::vector<int> nat(ng),ninv(nn,-1); for(auto& ip:nc->indexSet()){ long x=toL(ip.global()); int l=int(ip.local().local()); if(!back.count(x)||l<0||l>=nn||ninv[l]>=0||nat[back[x]]){ bij=false; continue; } ninv[l]=back[x]; nat[back[x]]=ip.local().attribute(); }
  std::string steps; auto read=[&](const std::vector<Dense>& D){ Dense R(ng*n,std::vector<int>(ng*n)); if(bij) for(auto r=nm.begin();r!=nm.end();++r) for(auto e=r->begin();e!=r->end();++e) for(int i=0;i<n;++i) for(int j=0;j<n;++j){ double x=EB::at(*e,i,j); R[ninv[r.index()]*n+i][ninv[e.index()]*n+j]= x==std::floor(x)&&std::abs(x)<1e6? int(x):1000000; } if(nn&&bij&&(int(nm.N())!=nn||int(nm.M())!=nn)) bij=false; auto s=gatherS(jt(R)); if(rank==0){ std::string l="["; for(int p=0;p<np;++p) l+=(p?",":"")+jt(D[p]); steps+=(steps.empty()?"":",")+Obj().raw("L",l+"]").raw("nL",s).str(); } };
  { redistributeMatrix(a,nm,comm,*nc,ri); read(L); } 
  if(g.chance(60)){ load(L2); comm.freeGlobalLookup(); comm.buildGlobalLookup(nl); redistributeMatrixEntries(a,nm,comm,*nc,ri); read(L2); if(g.chance(30)){ load(L); redistributeMatrixEntries(a,nm,comm,*nc,ri); read(L); } }
  // vectors
  V v(nl),w(nn),u(nl),c; auto rv=[&](V& x){ for(auto& e:x) for(int i=0;i<n;++i) EB::v(e,i)=int(h.in(-99,99)); }; rv(v); rv(w); rv(u);
  auto vo=[&](V& x,const std::vector<int>& iv){ std::vector<int> r(ng*n); for(std::size_t k=0;k<x.size();++k) for(int i=0;i<n;++i) if(iv[k]>=0) r[iv[k]*n+i]=int(EB::v(x[k],i)); return gatherS(vt::js(r)); };
  auto jv=vo(v,inv), jw0=vo(w,ninv); ri.redistribute(v,w); auto jw=vo(w,ninv), ju0=vo(u,inv); ri.redistributeBackward(u,w); auto ju=vo(u,inv); c=w; if(ex) nc->copyOwnerToAll(c,c); auto jc=vo(c,ninv);
  std::vector<int> xn(ng*n); for(int i=0;i<ng*n;++i) xn[i]=nat[i/n]; auto jn=gatherS(vt::js(xn)); auto jex=gatherS(ex?"true":"false"); auto jb=gatherS(bij?"true":"false"); bij= jb.find("false")==std::string::npos;
  if(rank==0){ Tab xa(np,std::vector<int>(ng*n)); std::vector<int> xp(ng*n); for(int i=0;i<ng*n;++i){ xp[i]=part[i/n]; for(int p=0;p<np;++p) xa[p][i]=at[p][i/n]; }
    out<<Obj().f("kind",kind).f("np",np).f("ng",ng*n).f("nov",nov).f("nparts",nparts).f("err",err).f("bij",bij).raw("ex",jex).raw("at",jt(xa)).raw("nat",jn).f("part",xp).raw("steps","["+steps+"]").raw("v",jv).raw("w0",jw0).raw("w",jw).raw("u0",ju0).raw("u",ju).raw("c",jc).str()<<std::endl; } }
int main(int argc,char** argv){ MPIHelper::instance(argc,argv); MPI_Comm_rank(MPI_COMM_WORLD,&rank); MPI_Comm_size(MPI_COMM_WORLD,&np); if(rank==0) out.open(argv[1]); Rng g(std::stoul(argv[2])); int cnt=std::stoi(argv[3]); using F1=FieldMatrix<double,1,1>; using F2=FieldMatrix<double,2,2>; using BU=bigunsignedint<56>;
  for(int k=0;k<cnt;++k) for(int nov=0;nov<2;++nov){ one<double,int>(g,"build",nov,0); one<F1,BU>(g,"build",nov,0); one<F2,int>(g,"build",nov,0); int m=int(g.in(1,np)); one<F1,int>(g,"graph",nov,m); one<double,BU>(g,"comm",nov,int(g.in(1,np))); }
  out.close(); MPI_Barrier(MPI_COMM_WORLD); if(rank==0) std::cout<<"RECORDS"<<std::endl; return 0; }
