// Records overlapping Schwarz preconditioners (spec/Schwarz.tla): the subdomains derived from aggregates and
// applications with every mode and subdomain solver, over GF(P) or over integers that double arithmetic represents exactly.
#include <config.h>
#include "fp.hh"
#include <cmath>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/overlappingschwarz.hh>
#include <dune/istl/paamg/smoother.hh>
#include <dune/istl/umfpack.hh>
#include <dune/istl/superlu.hh>
using namespace Dune; using vt::Fp; using vt::Rng; using vt::Obj; using VI=std::vector<int>; using VVI=std::vector<VI>;
template<class K> struct N { static K mk(Rng& g,bool small){ if constexpr(std::is_same_v<K,Fp>) return Fp(g.below(vt::P)); else return K(small?g.in(-1,1):g.in(-3,3)); }
  static int rd(const K& k){ if constexpr(std::is_same_v<K,Fp>) return k.v; else { double d=double(k); if(!(std::abs(d)<1e13)||std::abs(d-std::round(d))>1e-3) return -1; return Fp(std::int64_t(std::llround(d))).v; } } };
template<class B> struct Bk { static constexpr int n=1; using K=B; static K& e(B& b,int,int){ return b; } static const K& e(const B& b,int,int){ return b; } };
template<class T,int n_> struct Bk<FieldMatrix<T,n_,n_>> { static constexpr int n=n_; using K=T; static K& e(FieldMatrix<T,n_,n_>& b,int i,int j){ return b[i][j]; } static const K& e(const FieldMatrix<T,n_,n_>& b,int i,int j){ return b[i][j]; } };
template<class B> struct Bv { using V=B; static B& e(B& b,int){ return b; } }; template<class T,int n> struct Bv<FieldMatrix<T,n,n>> { using V=FieldVector<T,n>; static T& e(V& b,int i){ return b[i]; } };
template<class B> struct Sys { using M=BCRSMatrix<B>; using V=BlockVector<typename Bv<B>::V>; using K=typename Bk<B>::K; static constexpr int n=Bk<B>::n; int nb; VVI pat; M m; std::vector<std::vector<int>> A;
  Sys(Rng& g,int nb_,bool symm,bool full):nb(nb_),pat(nb_){ int dens=g.in(0,80); bool band=g.chance(40); std::vector<std::vector<char>> p(nb,std::vector<char>(nb)); for(int i=0;i<nb;++i){ p[i][i]=1; for(int j=0;j<i;++j){ bool a=band?(i-j==1||i-j==3):g.chance(dens), b=symm?a:band?a:g.chance(dens); p[i][j]=a; p[j][i]=b; } } if(full) for(auto& r:p) for(auto& e:r) e=1;
    m.setBuildMode(M::row_wise); m.setSize(nb,nb); for(auto r=m.createbegin();r!=m.createend();++r) for(int j=0;j<nb;++j) if(p[r.index()][j]) r.insert(j);
    constexpr bool ex=std::is_same_v<K,Fp>; VI ord(nb*n); for(int i=0;i<nb*n;++i) ord[i]=i; for(int i=nb*n-1;i>0;--i) std::swap(ord[i],ord[g.below(i+1)]); A.assign(nb*n,VI(nb*n));
    // integers: symmetrically permuted unit triangular, so that every local problem has an integer solution
    for(int i=0;i<nb;++i) for(auto c=m[i].begin();c!=m[i].end();++c) for(int k=0;k<n;++k) for(int l=0;l<n;++l){ int r=i*n+k,s=int(c.index())*n+l; K v= ex? N<K>::mk(g,false): r==s? K(g.chance(70)?1:-1) : ord[r]>ord[s]? K(g.in(-2,2)) : K(0); Bk<B>::e(*c,k,l)=v; A[r][s]=N<K>::rd(v); }
    for(int i=0;i<nb;++i) for(int j=0;j<nb;++j) if(p[i][j]) pat[i].push_back(j); } };
template<class V> VI flat(const V& v){ VI r; for(auto& b:v){ if constexpr(IsNumber<std::decay_t<decltype(b)>>::value) r.push_back(N<std::decay_t<decltype(b)>>::rd(b)); else for(auto& e:b) r.push_back(N<std::decay_t<decltype(e)>>::rd(e)); } return r; }
template<class V,class K> V rndv(Rng& g,int nb,bool zero){ V v(nb); for(auto& b:v){ if constexpr(IsNumber<std::decay_t<decltype(b)>>::value) b=zero?K(0):N<K>::mk(g,false); else for(auto& e:b) e=zero?K(0):N<K>::mk(g,false); } return v; }
template<class Mode,class B,class TD> void app(Rng& g,const char* mode,const char* slv,const char* type){
  using M=BCRSMatrix<B>; using V=BlockVector<typename Bv<B>::V>; using K=typename Bk<B>::K; using S=SeqOverlappingSchwarz<M,V,Mode,TD>; vt::divzero=false; constexpr bool dyn=std::string_view("").size()==1;
  (void)dyn; int nb=g.in(1,Bk<B>::n==1?7:5); Sys<B> s(g,nb,g.chance(30),false); int nd=g.in(1,4); typename S::subdomain_vector sd(nd); for(int i=0;i<nb;++i){ sd[g.below(nd)].insert(i); for(auto& d:sd) if(g.chance(35)) d.insert(i); } bool empt=false; for(auto& d:sd) empt|=d.empty(); if(empt){ typename S::subdomain_vector t; for(auto& d:sd) if(!d.empty()) t.push_back(d); sd=t; nd=int(sd.size()); }
  K w= N<K>::mk(g,true); if(w==K(0)||g.chance(40)) w=K(1); bool fly=g.chance(50)||std::string(slv)=="dyn"; bool byrow=g.chance(40), tmp=g.chance(30); std::string what="ok"; VVI dj; for(auto& d:sd) dj.push_back(VI(d.begin(),d.end()));
  V x=rndv<V,K>(g,nb,g.chance(30)), b=rndv<V,K>(g,nb,false); VI x0=flat(x),b0=flat(b),x1; std::string steps; int cat=-1; M work(s.m);
  try { std::unique_ptr<S> p; if(byrow){ typename S::rowtodomain_vector rd(nb); for(int d=0;d<nd;++d) for(int i:dj[d]) rd[i].push_back(d); if(fly&&g.chance(50)&&w==K(1)) p=std::make_unique<S>(work,rd); else p=std::make_unique<S>(work,rd,w,fly); } else p=std::make_unique<S>(work,sd,w,fly); (void)tmp;
    for(auto& d:sd) d.clear(); cat=p->category()==SolverCategory::sequential; int k=g.in(1,3); Preconditioner<V,V>& q=*p; q.pre(x,b);
    for(int t=0;t<k;++t){ V c(x),bb(b); if(g.chance(40)) bb=rndv<V,K>(g,nb,false); V b2(bb); int dir=g.below(3); if(dir==0) q.apply(c,bb); else if(dir==1) p->template apply<true>(c,bb); else p->template apply<false>(c,bb); bool pure=true; for(int i=0;i<nb;++i) pure&= bb[i]==b2[i]; VI r=flat(c); steps+=(t?",":"")+Obj().f("dir",dir).f("x",flat(x)).f("b",flat(b2)).f("v",r).f("pure",pure).str(); if(std::is_same_v<K,Fp>&&g.chance(50)) x=c; }
    q.post(x);
  } catch(Dune::Exception& e){ what=e.what(); }
  if(vt::divzero||what.find("ingular")!=std::string::npos) return;
  (void)x1; std::cout<<Obj().f("kind","app").f("mode",mode).f("slv",slv).f("type",type).f("fly",fly).f("nb",nb).f("bs",Bk<B>::n).f("A",s.A).f("pat",s.pat).f("doms",dj).f("w",N<K>::rd(w)).raw("ap","["+steps+"]").f("what",what).f("cat",cat).str()<<"\n"; }
template<class B,class TD> void modes(Rng& g,const char* slv,const char* type){ switch(g.below(3)){ case 0: app<AdditiveSchwarzMode,B,TD>(g,"add",slv,type); break; case 1: app<MultiplicativeSchwarzMode,B,TD>(g,"mul",slv,type); break; default: app<SymmetricMultiplicativeSchwarzMode,B,TD>(g,"sym",slv,type); } }
// subdomains that the smoother of a multigrid method derives from aggregates
template<class B> void dom(Rng& g){ using M=BCRSMatrix<B>; using V=BlockVector<typename Bv<B>::V>; using S=SeqOverlappingSchwarz<M,V,MultiplicativeSchwarzMode,ILU0SubdomainSolver<M,V,V>>; using CA=Amg::ConstructionArgs<S>; using SA=typename Amg::SmootherTraits<S>::Arguments;
  int nb=g.in(1,9); Sys<B> s(g,nb,true,false); bool plain=g.chance(20); int ov=g.below(4); const char* on[]={"vertex","aggregate","pairwise","none"}; // connected aggregates, consecutively numbered in the order of a random permutation of the seeds
  VI map(nb,-2); int na=0; std::vector<VI> nbr(nb); for(int i=0;i<nb;++i) for(int j:s.pat[i]) if(j!=i) nbr[i].push_back(j); VI ord(nb); for(int i=0;i<nb;++i) ord[i]=i; if(g.chance(70)) for(int i=nb-1;i>0;--i) std::swap(ord[i],ord[g.below(i+1)]);
  int iso=g.chance(50)?25:0; for(int i:ord) if(map[i]==-2){ if(g.chance(iso)){ map[i]=-1; continue; } VI q{i}; map[i]=na; int mx=g.in(1,3); for(std::size_t k=0;k<q.size();++k) for(int j:nbr[q[k]]) if(map[j]==-2&&int(q.size())<mx){ map[j]=na; q.push_back(j); } ++na; }
  if(plain) for(int i=0;i<nb;++i) map[i]=i;
  CA ca; SA sa; sa.overlap=typename SA::Overlap(ov); sa.onthefly=g.chance(50); sa.relaxationFactor=1; ca.setArgs(sa); std::string what="ok"; VVI dj; int rep=g.chance(30)?2:1;
  try { Amg::AggregatesMap<std::size_t> am(nb); for(int i=0;i<nb;++i) am[i]= map[i]<0? Amg::AggregatesMap<std::size_t>::ISOLATED : std::size_t(map[i]); for(int r=0;r<rep;++r){ if(plain) ca.setMatrix(s.m); else ca.setMatrix(s.m,am); } for(auto& d:ca.getSubDomains()) dj.push_back(VI(d.begin(),d.end())); } catch(Dune::Exception& e){ what= dynamic_cast<Dune::NotImplemented*>(&e)?"notimplemented":e.what(); }
  std::cout<<Obj().f("kind","dom").f("ov",on[ov]).f("plain",plain).f("nb",nb).f("pat",s.pat).f("map",map).f("doms",dj).f("what",what).str()<<"\n"; }
int main(int,char** argv){ Rng g(std::stoul(argv[1])); int cnt=std::stoi(argv[2]); dinfo.push(false); dverb.push(false); dvverb.push(false); using F1=FieldMatrix<Fp,1,1>; using F2=FieldMatrix<Fp,2,2>; using D1=FieldMatrix<double,1,1>; using D2=FieldMatrix<double,2,2>;
#define T(B) BCRSMatrix<B>,BlockVector<Bv<B>::V>,BlockVector<Bv<B>::V>
  for(int k=0;k<cnt;++k) switch(g.below(17)){ case 0: modes<F1,ILU0SubdomainSolver<T(F1)>>(g,"ilu0","F1"); break; case 1: modes<F2,ILU0SubdomainSolver<T(F2)>>(g,"ilu0","F2"); break; case 2: modes<F1,ILUNSubdomainSolver<T(F1)>>(g,"ilun","F1"); break; case 3: modes<F2,ILUNSubdomainSolver<T(F2)>>(g,"ilun","F2"); break;
    case 4: modes<F1,DynamicMatrixSubdomainSolver<T(F1)>>(g,"dyn","F1"); break; 
#ifndef NODYN2
    case 5: modes<F2,DynamicMatrixSubdomainSolver<T(F2)>>(g,"dyn","F2"); break; case 6: modes<Fp,DynamicMatrixSubdomainSolver<T(Fp)>>(g,"dyn","Fp"); break;
#endif
    case 7: modes<D1,UMFPack<BCRSMatrix<D1>>>(g,"umf","D1"); break; case 8: modes<D2,UMFPack<BCRSMatrix<D2>>>(g,"umf","D2"); break; case 9: modes<D1,SuperLU<BCRSMatrix<D1>>>(g,"slu","D1"); break; case 10: modes<D2,SuperLU<BCRSMatrix<D2>>>(g,"slu","D2"); break;
#ifndef NOSCAL
    case 11: modes<double,UMFPack<BCRSMatrix<double>>>(g,"umf","D"); break; case 12: modes<double,SuperLU<BCRSMatrix<double>>>(g,"slu","D"); break; case 13: modes<Fp,ILU0SubdomainSolver<T(Fp)>>(g,"ilu0","Fp"); break; case 14: modes<Fp,ILUNSubdomainSolver<T(Fp)>>(g,"ilun","Fp"); break;
#endif
    case 15: dom<F1>(g); break; case 16: dom<F2>(g); break; }
  return 0; }
