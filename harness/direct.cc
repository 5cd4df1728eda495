// Records histories of direct solver wrappers and of compressed column conversions (spec/Direct.tla).
#include <config.h>
#include "flat.hh"
#include <fstream>
#include <memory>
#include <set>
#include <unistd.h>
#include <dune/istl/umfpack.hh>
#include <dune/istl/superlu.hh>
#include <dune/istl/ldl.hh>
#include <dune/istl/spqr.hh>
#include <dune/istl/cholmod.hh>
using namespace vt; using namespace Dune; using C=std::complex<double>; using I=ISTL::Impl::BCCSMatrix<double>;
std::ofstream out; std::string dir;
template<class B> struct Bk { static constexpr int n=1,m=1; using K=B; static K& e(B& b,int,int){ return b; } };
template<class T,int r,int c> struct Bk<FieldMatrix<T,r,c>> { static constexpr int n=r,m=c; using K=T; static K& e(FieldMatrix<T,r,c>& b,int i,int j){ return b[i][j]; } };
template<class T> struct Bk<DiagonalMatrix<T,2>> { static constexpr int n=2,m=2; using K=T; };
struct Z { int re=0,im=0; }; using Zs=std::vector<std::vector<Z>>; // dense integer matrix
std::string jz(const std::vector<Z>& v){ std::string s; for(auto& z:v) s+=(s.empty()?"":",")+("["+std::to_string(z.re)+","+std::to_string(z.im)+"]"); return "["+s+"]"; }
template<class K> K mk(Z z){ return Sc<K>::mk(z.re,z.im); }
template<class K> Z rd(const K& k,bool flt=false){ double re,im=0; if constexpr(Sc<K>::cx){ re=k.real(); im=k.imag(); } else re=k; double eps=flt?1e-2:1e-6; if(!(std::abs(re-std::round(re))<eps)||!(std::abs(im-std::round(im))<eps)||std::abs(re)>1e6||std::abs(im)>1e6) return Z{-77777,0}; return Z{int(std::lround(re)),int(std::lround(im))}; }
// A diagonally dominant integer block matrix, possibly with permuted block rows; sym: symmetric, definite: positive diagonal
struct Sys { int n,br,bc; Zs a; Pat p; std::string tab; };
Sys rndSys(Rng& g,int n,int br,int bc,bool cx,bool sym,bool posdef,bool perm){ Sys s{n,br,bc,Zs(n*br,std::vector<Z>(n*bc)),Pat(n),""}; std::vector<std::vector<bool>> st(n,std::vector<bool>(n)); int dens=int(g.in(0,90)); for(int i=0;i<n;++i) for(int j=0;j<n;++j){ st[i][j]=i==j||g.chance(dens); } if(sym) for(int i=0;i<n;++i) for(int j=0;j<i;++j) st[i][j]=st[j][i];
  auto val=[&]{ Z z; z.re=g.chance(25)?0:int(g.in(-3,3)); z.im=cx?(g.chance(30)?0:int(g.in(-3,3))):0; return z; };
  for(int i=0;i<n;++i) for(int j=0;j<n;++j) if(st[i][j]) for(int r=0;r<br;++r) for(int c=0;c<bc;++c) s.a[i*br+r][j*bc+c]=val();
  if(sym) for(int i=0;i<n*br;++i) for(int j=0;j<i;++j) s.a[i][j]=s.a[j][i];
  for(int i=0;i<n;++i) for(int q=0;q<bc;++q){ int r=i*br+q,c=i*bc+q; int sum=0; for(int k=0;k<n*bc;++k) if(k!=c) sum+=std::abs(s.a[r][k].re)+std::abs(s.a[r][k].im); s.a[r][c]=Z{(sum+int(g.in(1,4)))*(posdef||g.chance(50)?1:-1),cx?int(g.in(-2,2)):0}; if(cx&&g.chance(40)) std::swap(s.a[r][c].re,s.a[r][c].im); }
  std::vector<int> pi(n); for(int i=0;i<n;++i) pi[i]=i; if(perm) for(int i=n-1;i>0;--i) std::swap(pi[i],pi[g.below(i+1)]);
  Zs b(n*br); for(int i=0;i<n;++i){ for(int r=0;r<br;++r) b[i*br+r]=s.a[pi[i]*br+r]; for(int j=0;j<n;++j) if(st[pi[i]][j]) s.p[i].push_back(j); } s.a=b;
  for(int i=0;i<n;++i) for(int j:s.p[i]) for(int r=0;r<br;++r) for(int c=0;c<bc;++c){ auto z=s.a[i*br+r][j*bc+c]; s.tab+=(s.tab.empty()?"":",")+("["+std::to_string(i*br+r)+","+std::to_string(j*bc+c)+","+std::to_string(z.re)+","+std::to_string(z.im)+"]"); } s.tab="["+s.tab+"]"; return s; }
template<class B> void build(BCRSMatrix<B>& A,Rng& g,const Sys& s){ buildBCRS(A,s.n,s.n,s.p,s.n?int(g.below(3)):1); for(int i=0;i<s.n;++i) for(int j:s.p[i]) for(int r=0;r<s.br;++r) for(int c=0;c<s.bc;++c) Bk<B>::e(A[i][j],r,c)=mk<typename Bk<B>::K>(s.a[i*s.br+r][j*s.bc+c]); }
template<class Mt> std::string ccs(const Mt& m,bool cx){ using K=std::decay_t<decltype(m.getValues()[0])>; std::vector<int> cs,ri; std::vector<Z> v; int M=int(m.M()); if(m.getColStart()) for(int i=0;i<=M;++i) cs.push_back(int(m.getColStart()[i])); for(int i=0;i<int(m.nonzeroes());++i){ ri.push_back(int(m.getRowIndex()[i])); v.push_back(rd<K>(m.getValues()[i])); } Obj o; o.f("op",std::string("ccs")).f("n",int(m.N())).f("m",M).f("nnz",int(m.nonzeroes())).f("cs",cs).f("ri",ri).raw("v",jz(v)); return o.str(); }
template<class V> void vset(V& v,const std::vector<Z>& z){ flatVectorForEach(v,[&](auto& e,std::size_t i){ e=mk<std::decay_t<decltype(e)>>(z.at(i)); }); }
template<class V> std::vector<Z> vget(const V& v,bool flt){ std::vector<Z> z; flatVectorForEach(v,[&](auto&& e,std::size_t){ z.push_back(rd<std::decay_t<decltype(e)>>(e,flt)); }); return z; }
enum { UMF,SLU,LDLS,SPQ };
// histories of one solver object
template<int kind,class S,class B> void hist(const char* type,Rng& g,bool flt=false){
  using M=BCRSMatrix<B>; using K=typename Bk<B>::K; constexpr int br=Bk<B>::n,bc=Bk<B>::m; constexpr bool cx=Sc<K>::cx; using X=typename S::domain_type; using Y=typename S::range_type;
  std::unique_ptr<S> s; std::vector<std::unique_ptr<M>> keep; std::string steps; int cur=-1; /* number of block rows set */ bool have=false; auto add=[&](const std::string& x){ steps+=(steps.empty()?"":",")+x; };
  auto sys=[&](bool perm){ return rndSys(g,int(g.in(kind==UMF?0:1,6)),br,bc,cx,kind==LDLS,false,perm&&kind!=LDLS); };
  auto setj=[&](const Sys& q,const std::set<std::size_t>* sub,const std::vector<int>* flat){ std::vector<int> k; if(sub) for(auto i:*sub) for(int r=0;r<br;++r) k.push_back(int(i)*br+r); else if(flat) k=*flat; else for(int i=0;i<q.n*br;++i) k.push_back(i); std::vector<int> kc; if(sub) for(auto i:*sub) for(int r=0;r<bc;++r) kc.push_back(int(i)*bc+r); else if(flat) kc=*flat; else for(int i=0;i<q.n*bc;++i) kc.push_back(i); Obj o; o.f("op",std::string("set")).raw("tab",q.tab).f("rows",k).f("cols",kc).f("out",std::string("ok")); return o.str(); };
  int len=int(g.in(3,12)); std::string file=dir+"/dec"; bool loaded=false; unlink(file.c_str()); std::string fileset; int filerows=0;
  for(int t=0;t<len;++t){ int c=int(g.below(12));
    if(!s||(c==0&&!keep.empty()&&g.chance(60))){ s.reset(); have=false; loaded=false; int w=int(g.below(4)); if(w==0) s=std::make_unique<S>(); else { auto q=sys(true); M A; build(A,g,q); add(setj(q,nullptr,nullptr)); cur=q.n; have=true; if(w==1) s=std::make_unique<S>(A); else if(w==2) s=std::make_unique<S>(A,0,g.chance(50)); else { ParameterTree p; p["verbose"]="0"; p["reuseVector"]=g.chance(50)?"1":"0"; s=std::make_unique<S>(A,p); } } continue; }
    if(c==1||c==2||(c<6&&!have)){ auto q=sys(true); M A; build(A,g,q); s->setMatrix(A); add(setj(q,nullptr,nullptr)); cur=q.n; have=true; loaded=false; }
    else if(c==3){ auto q=sys(false); if(q.n==0) continue; M A; build(A,g,q); std::set<std::size_t> sub; while(sub.empty()) for(int i=0;i<q.n;++i) if(g.chance(60)) sub.insert(i); s->setSubMatrix(A,sub); add(setj(q,&sub,nullptr)); cur=int(sub.size()); have=true; loaded=false; }
    else if(c==4){ if constexpr(kind==UMF){ auto q=sys(false); if(q.n==0) continue; M A; build(A,g,q); BlockVector<std::conditional_t<std::is_same_v<B,K>,int,FieldVector<int,br>>> bv(q.n); bv=0; std::vector<int> fl; std::set<std::size_t> sub; for(int i=0;i<q.n;++i) if(g.chance(60)||(i==q.n-1&&sub.empty())) sub.insert(i); else bv[i]=1; for(auto i:sub) for(int r=0;r<br;++r) fl.push_back(int(i)*br+r); s->setMatrix(A,bv); add(setj(q,nullptr,&fl)); cur=int(sub.size()); have=true; loaded=false; } }
    else if(c==5&&have){ if constexpr(kind==UMF){ int w=int(g.below(3)); if(w==0&&cur>0&&!loaded){ unlink(file.c_str()); s->saveDecomposition(file.c_str()); filerows=cur; fileset="x"; add(Obj().f("op",std::string("save")).str()); } else if(!fileset.empty()){ s.reset(); if(w==1){ auto q=sys(true); M A; build(A,g,q); s=std::make_unique<S>(A,file.c_str()); } else s=std::make_unique<S>(file.c_str()); add(Obj().f("op",std::string("load")).str()); cur=filerows; have=true; loaded=true; } } }
    else if(c==6&&have&&g.chance(30)&&!loaded&&cur>0){ s->free(); have=false; add(Obj().f("op",std::string("free")).str()); if constexpr(kind==UMF||kind==SLU){ X x(2); Y b(2); InverseOperatorResult r; std::string o="ok"; try{ s->apply(x,b,r); }catch(const Dune::Exception&){ o="err"; } add(Obj().f("op",std::string("noapply")).f("out",o).str()); } }
    else if(c==7&&have&&!loaded){ if constexpr(kind!=SLU) if(cur>0) add(ccs(s->getInternalMatrix(),cx)); }
    else if(c==8&&have&&(kind==UMF||kind==SLU)&&g.chance(40)){ X x(cur+1); Y b(cur+(g.chance(50)?1:0)); InverseOperatorResult r; std::string o="ok"; try{ s->apply(x,b,r); }catch(const Dune::Exception&){ o="err"; } add(Obj().f("op",std::string("noapply")).f("out",o).str()); }
    else if(have){ // the right-hand side of a known integer solution is found from the matrix set last: recomputed by the judge
      std::vector<Z> b,x; steps+=steps.empty()?"":","; 
      // right hand side: A*xt with the matrix recorded in the step log
      X xv(cur); Y bv(cur); extern std::vector<Z> rhs(const std::string&,Rng&,int,int,bool); b=rhs(steps,g,cur*br,cur*bc,cx); vset(bv,b); std::vector<Z> x0(cur*bc); for(auto& z:x0) z=Z{int(g.in(-5,5)),0}; vset(xv,x0); InverseOperatorResult r; r.converged=false; r.iterations=-3; int w=int(g.below(3)); if((kind==UMF||kind==SLU||kind==LDLS)&&w==0&&cur>0){ if constexpr(kind!=SPQ) s->apply(reinterpret_cast<K*>(&xv[0]),reinterpret_cast<K*>(&bv[0])); r.converged=true; r.iterations=1; } else if(w==1) s->apply(xv,bv,1e-3,r); else s->apply(xv,bv,r); if(cur==0){ r.converged=true; r.iterations=1; }
      x=vget(xv,flt); steps+=Obj().f("op",std::string("apply")).raw("b",jz(b)).raw("x",jz(x)).f("conv",r.converged).f("it",r.iterations).f("cat",s->category()==SolverCategory::sequential).str(); }
  }
  s.reset(); unlink(file.c_str()); out<<Obj().f("kind",std::string("hist")).f("type",std::string(type)).raw("steps","["+steps+"]").str()<<std::endl; }
// the matrix in force after the recorded steps times a random integer vector
#include <regex>
std::vector<Z> rhs(const std::string& steps,Rng& g,int n,int m,bool cx){ // replay set/save/load on the textual log
  struct St { std::vector<std::array<int,4>> tab; std::vector<int> rows,cols; } cur,file; std::size_t p=0; auto ints=[&](std::size_t q,std::vector<int>& v){ int d=0; for(;;++q){ char c=steps[q]; if(c=='[') ++d; else if(c==']'){ if(--d==0) break; } else if(c=='-'||isdigit(c)){ char* e; v.push_back(int(strtol(steps.c_str()+q,&e,10))); q=e-steps.c_str()-1; } } };
  while((p=steps.find("\"op\":\"",p))!=std::string::npos){ p+=6; std::string op=steps.substr(p,steps.find('"',p)-p); if(op=="set"){ cur=St(); std::vector<int> t; ints(steps.find("\"tab\":",p)+6,t); for(std::size_t i=0;i+3<t.size();i+=4) cur.tab.push_back({t[i],t[i+1],t[i+2],t[i+3]}); ints(steps.find("\"rows\":",p)+7,cur.rows); ints(steps.find("\"cols\":",p)+7,cur.cols); } else if(op=="save") file=cur; else if(op=="load") cur=file; }
  std::vector<Z> x(m),b(n); for(auto& z:x) z=Z{int(g.in(-9,9)),cx?int(g.in(-9,9)):0}; std::vector<int> ri(1000,-1),ci(1000,-1); for(std::size_t i=0;i<cur.rows.size();++i) ri[cur.rows[i]]=int(i); for(std::size_t i=0;i<cur.cols.size();++i) ci[cur.cols[i]]=int(i);
  for(auto& e:cur.tab){ int r=ri[e[0]],c=ci[e[1]]; if(r<0||c<0) continue; b.at(r).re+=e[2]*x.at(c).re-e[3]*x[c].im; b[r].im+=e[2]*x[c].im+e[3]*x[c].re; } return b; }
// Cholmod: matrix types are free, ignored degrees of freedom
template<class V,class Ix,class Bld> void chol(const char* type,Rng& g,int bs,Bld&& bld,bool flt=false){
  auto s=std::make_unique<Cholmod<V,Ix>>(); std::string steps; bool have=false; int len=int(g.in(2,9)); int n=0; std::vector<bool> ign; Sys q;
  for(int t=0;t<len;++t){ bool set=!have||g.chance(30); if(set){ n=int(g.in(0,6)); ign.clear(); q=rndSys(g,n,bs,bs,false,true,true,false); bool useign=g.chance(50); ign.assign(n*bs,false); if(useign){ int d=int(g.below(4)); for(std::size_t i=0;i<ign.size();++i) ign[i]=d==3||g.chance(d*30); }
      std::vector<int> k; for(int i=0;i<n*bs;++i) if(!ign[i]) k.push_back(i); bld.set(*s,g,q,useign?&ign:nullptr); steps+=(steps.empty()?"":",")+Obj().f("op",std::string("set")).raw("tab",q.tab).f("rows",k).f("cols",k).f("out",std::string("ok")).str(); have=true; }
    else { V x,b; bld.size(x,q.n); bld.size(b,q.n); std::vector<Z> bz(n*bs),xt(n*bs),x0(n*bs); for(auto& z:xt) z=Z{int(g.in(-9,9)),0}; for(auto& z:x0) z=Z{int(g.in(-5,5)),0}; for(int i=0;i<n*bs;++i){ if(ign[i]){ bz[i]=Z{int(g.in(-9,9)),0}; continue; } for(int j=0;j<n*bs;++j) if(!ign[j]) bz[i].re+=q.a[i][j].re*xt[j].re; } vset(b,bz); vset(x,x0); InverseOperatorResult r; if(g.chance(50)) s->apply(x,b,r); else s->apply(x,b,1e-3,r); auto xz=vget(x,flt),b1=vget(b,flt); std::vector<Z> xs,bs2,rest,rest0; for(int i=0;i<n*bs;++i) if(!ign[i]){ xs.push_back(xz[i]); bs2.push_back(bz[i]); } else { rest.push_back(xz[i]); rest0.push_back(x0[i]); rest.push_back(b1[i]); rest0.push_back(bz[i]); }
      bool none=xs.empty(); steps+=(steps.empty()?"":",")+Obj().f("op",std::string("apply")).raw("b",jz(bs2)).raw("x",jz(xs)).f("conv",none||r.converged).f("it",none?1:r.iterations).f("cat",s->category()==SolverCategory::sequential).str(); steps+=","+Obj().f("op",std::string("rest")).raw("a",jz(rest)).raw("b",jz(rest0)).str(); } }
  s.reset(); out<<Obj().f("kind",std::string("hist")).f("type",std::string(type)).raw("steps","["+steps+"]").str()<<std::endl; }
template<class B> struct CB { static constexpr int k=Bk<B>::n; template<class S> void set(S& s,Rng& g,const Sys& q,const std::vector<bool>* ign){ BCRSMatrix<B> A; build(A,g,q); if(!ign) s.setMatrix(A); else if constexpr(std::is_same_v<B,typename Bk<B>::K>){ BlockVector<int> v(q.n); for(int i=0;i<q.n;++i) v[i]=(*ign)[i]; s.setMatrix(A,&v); } else { std::vector<std::array<bool,k>> v(q.n); for(int i=0;i<q.n*k;++i) v[i/k][i%k]=(*ign)[i]; s.setMatrix(A,&v); } } template<class V> void size(V& v,int n){ v.resize(n); } };
// two field types: the first ceil(n/2) rows form block 0 (scalar), the others block 1
struct CM { template<class S> void set(S& s,Rng& g,const Sys& q,const std::vector<bool>* ign){ using A0=BCRSMatrix<FieldMatrix<double,1,1>>; using R=MultiTypeBlockVector<A0,A0>; MultiTypeBlockMatrix<R,R> A; int h[3]={0,(q.n+1)/2,q.n}; Hybrid::forEach(std::make_index_sequence<2>{},[&](auto I){ Hybrid::forEach(std::make_index_sequence<2>{},[&](auto J){ A0& b=A[I][J]; Pat p(h[I+1]-h[I]); for(int i=h[I];i<h[I+1];++i) for(int j:q.p[i]) if(j>=h[J]&&j<h[J+1]) p[i-h[I]].push_back(j-h[J]); buildBCRS(b,int(p.size()),h[J+1]-h[J],p,1); for(int i=0;i<int(p.size());++i) for(int j:p[i]) b[i][j]=q.a[i+h[I]][j+h[J]].re; }); });
    if(!ign) s.setMatrix(A); else { MultiTypeBlockVector<BlockVector<FieldVector<int,1>>,BlockVector<FieldVector<int,1>>> v; v[Indices::_0].resize(h[1]); v[Indices::_1].resize(h[2]-h[1]); flatVectorForEach(v,[&](auto& e,std::size_t i){ e=(*ign)[i]; }); s.setMatrix(A,&v); } } template<class V> void size(V& v,int n){ v[Indices::_0].resize((n+1)/2); v[Indices::_1].resize(n/2); } };
// column compressed matrices themselves: conversion (index types), row subsets, assignment, free
template<class B,class Ix> void conv(const char* type,Rng& g){ using M=BCRSMatrix<B>; using K=typename Bk<B>::K; using Mt=ISTL::Impl::BCCSMatrix<K,Ix>; constexpr int br=Bk<B>::n,bc=Bk<B>::m; std::unique_ptr<Mt> o[2]; std::string ccur; std::string steps; std::string cur[2]; auto add=[&](const std::string& x){ steps+=(steps.empty()?"":",")+x; }; int len=int(g.in(2,10)); o[0]=std::make_unique<Mt>(); o[1]=std::make_unique<Mt>();
  auto none=[&]{ return Obj().f("op",std::string("set")).raw("tab","[]").f("rows",std::vector<int>()).f("cols",std::vector<int>()).f("out",std::string("ok")).str(); }; cur[0]=cur[1]=none();
  for(int t=0;t<len;++t){ int a=int(g.below(2)),c=int(g.below(6)); 
    if(c<3){ int n=int(g.in(0,5)),m=int(g.in(0,5)); if(c==2) m=n; Pat p=rndPat(g,n,m); if(g.chance(20)) for(auto& x:p) x.clear(); M A; buildBCRS(A,n,m,p,n?int(g.below(3)):1); std::string tab; for(int i=0;i<n;++i) for(int j:p[i]) for(int r=0;r<br;++r) for(int k=0;k<bc;++k){ Z z{int(g.in(-9,9)),Sc<K>::cx?int(g.in(-9,9)):0}; Bk<B>::e(A[i][j],r,k)=mk<K>(z); tab+=(tab.empty()?"":",")+js(std::vector<int>{i*br+r,j*bc+k,z.re,z.im}); }
      o[a]=std::make_unique<Mt>(); std::vector<int> R,Cc; if(c<2){ for(int i=0;i<n*br;++i) R.push_back(i); for(int i=0;i<m*bc;++i) Cc.push_back(i); o[a]->setSize(n*br,m*bc); ISTL::Impl::BCCSMatrixInitializer<M,Ix> init(*o[a]); copyToBCCSMatrix(init,A); } else { std::set<std::size_t> S; for(int i=0;i<n;++i) if(g.chance(60)) S.insert(i); for(auto i:S){ for(int r=0;r<br;++r) R.push_back(int(i)*br+r); for(int r=0;r<bc;++r) Cc.push_back(int(i)*bc+r); } o[a]->setSize(S.size()*br,S.size()*bc); ISTL::Impl::BCCSMatrixInitializer<M,Ix> init(*o[a]); copyToBCCSMatrix(init,ISTL::Impl::MatrixRowSubset<M,std::set<std::size_t>>(A,S)); }
      cur[a]=Obj().f("op",std::string("set")).raw("tab","["+tab+"]").f("rows",R).f("cols",Cc).f("out",std::string("ok")).str(); }
    else if(c==3){ if constexpr(std::is_same_v<Ix,std::size_t>){ int b=g.chance(90)?1-a:a; *o[a]=*o[b]; cur[a]=cur[b]; } }
    else if(c==4){ o[a]->free(); cur[a]=none(); }
    for(int k=0;k<2;++k){ bool e=o[k]->N()+o[k]->M()+o[k]->nonzeroes()==0; add(cur[k]); if(!e) add(ccs(*o[k],Sc<K>::cx)); else add(Obj().f("op",std::string("ccs")).f("n",0).f("m",0).f("nnz",0).f("cs",std::vector<int>{0}).f("ri",std::vector<int>()).raw("v","[]").str()); } }
  out<<Obj().f("kind",std::string("hist")).f("type",std::string(type)).raw("steps","["+steps+"]").str()<<std::endl; }
template<class B> void slum(const char* type,Rng& g){ using M=BCRSMatrix<B>; constexpr int br=Bk<B>::n,bc=Bk<B>::m; constexpr bool cx=Sc<typename Bk<B>::K>::cx; SuperLUMatrix<M> s; std::string steps; int len=int(g.in(1,5)); for(int t=0;t<len;++t){ auto q=rndSys(g,int(g.in(1,5)),br,bc,cx,false,false,true); M A; build(A,g,q); std::vector<int> R; if(g.chance(50)){ s=A; for(int i=0;i<q.n*br;++i) R.push_back(i); } else { std::set<std::size_t> S; while(S.empty()) for(int i=0;i<q.n;++i) if(g.chance(60)) S.insert(i); s.setMatrix(A,S); for(auto i:S) for(int r=0;r<br;++r) R.push_back(int(i)*br+r); } steps+=(steps.empty()?"":",")+Obj().f("op",std::string("set")).raw("tab",q.tab).f("rows",R).f("cols",R).f("out",std::string("ok")).str(); steps+=","+ccs(s,cx); SuperMatrix& sm=s; steps+=","+Obj().f("op",std::string("super")).f("n",int(sm.nrow)).f("m",int(sm.ncol)).f("nnz",int(((NCformat*)sm.Store)->nnz)).str(); }
  out<<Obj().f("kind",std::string("hist")).f("type",std::string(type)).raw("steps","["+steps+"]").str()<<std::endl; }
template<class T,int n,int m=n> using FM=FieldMatrix<T,n,m>;
int main(int argc,char** argv){ out.open(argv[1]); Rng g(std::stoul(argv[2])); int cnt=std::stoi(argv[3]); dir=argv[4]; std::cout.setstate(std::ios::failbit);
  for(int t=0;t<cnt;++t){
#if PART==1
    hist<UMF,UMFPack<BCRSMatrix<double>>,double>("umfpack<double>",g); hist<UMF,UMFPack<BCRSMatrix<FM<double,2>>>,FM<double,2>>("umfpack<2>",g); hist<UMF,UMFPack<BCRSMatrix<C>>,C>("umfpack<complex>",g); hist<UMF,UMFPack<BCRSMatrix<FM<C,3>>>,FM<C,3>>("umfpack<c3>",g);
#elif PART==2
    hist<SLU,SuperLU<BCRSMatrix<double>>,double>("superlu<double>",g); hist<SLU,SuperLU<BCRSMatrix<FM<double,2>>>,FM<double,2>>("superlu<2>",g); hist<SLU,SuperLU<BCRSMatrix<FM<C,2>>>,FM<C,2>>("superlu<c2>",g); hist<SLU,SuperLU<BCRSMatrix<C>>,C>("superlu<complex>",g); hist<SLU,SuperLU<BCRSMatrix<FM<float,2>>>,FM<float,2>>("superlu<float>",g,true); hist<SLU,SuperLU<BCRSMatrix<FM<std::complex<float>,1>>>,FM<std::complex<float>,1>>("superlu<complexfloat>",g,true);
#elif PART==3
    hist<LDLS,LDL<BCRSMatrix<FM<double,1>>>,FM<double,1>>("ldl<1>",g); hist<LDLS,LDL<BCRSMatrix<FM<double,3>>>,FM<double,3>>("ldl<3>",g);
    hist<SPQ,SPQR<BCRSMatrix<FM<double,1>>>,FM<double,1>>("spqr<1>",g); hist<SPQ,SPQR<BCRSMatrix<FM<double,2>>>,FM<double,2>>("spqr<2>",g); hist<SPQ,SPQR<BCRSMatrix<FM<double,3,2>>>,FM<double,3,2>>("spqr<32>",g);
    hist<SPQ,SPQR<BCRSMatrix<FM<C,1>>>,FM<C,1>>("spqr<c1>",g); hist<SPQ,SPQR<BCRSMatrix<FM<C,2>>>,FM<C,2>>("spqr<c2>",g);
#else
    chol<BlockVector<double>,int>("cholmod<double>",g,1,CB<double>()); chol<BlockVector<FieldVector<double,2>>,SuiteSparse_long>("cholmod<2,long>",g,2,CB<FM<double,2>>()); chol<BlockVector<FieldVector<double,3>>,int>("cholmod<3>",g,3,CB<FM<double,3>>()); chol<BlockVector<FieldVector<float,1>>,int>("cholmod<float>",g,1,CB<FM<float,1>>(),true); chol<MultiTypeBlockVector<BlockVector<FieldVector<double,1>>,BlockVector<FieldVector<double,1>>>,int>("cholmod<multi>",g,1,CM());
    conv<double,std::size_t>("ccs<double>",g); conv<FM<double,2,3>,std::size_t>("ccs<23>",g); conv<FM<C,2,2>,int>("ccs<c2,int>",g); conv<FM<float,1,2>,long>("ccs<12,long>",g); slum<double>("supermatrix<double>",g); slum<FM<C,2>>("supermatrix<c2>",g);
#endif
  }
  out.close(); std::cout.clear(); std::cout<<"RECORDS"<<std::endl; return 0; }
