// Records factors and applications of the incomplete factorisations over GF(P^2).
#include <config.h>
#include "fp2.hh"
#include <fstream>
#include <dune/common/parametertree.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/ilu.hh>
#include <dune/istl/dilu.hh>
#include <dune/istl/ildl.hh>
#include <dune/istl/preconditioners.hh>
using namespace Dune; using vt::Fp2; using vt::Fp; using vt::Rng;
using Dense=std::vector<std::vector<Fp2>>; using Pat=std::vector<std::vector<int>>;
std::ofstream out;
Fp2 rnd(Rng& g){ int k=int(g.below(10)); if(k==0) return Fp2(0); if(k<4) return Fp2(Fp(g.in(-2,2)),Fp(0)); return Fp2(Fp(g.below(vt::P)),g.chance(50)?Fp(0):Fp(g.below(vt::P))); }
template<class B> struct S; template<> struct S<Fp2>{ static constexpr int s=1; using V=Fp2; static Fp2& at(Fp2& b,int,int){ return b; } static Fp2& v(Fp2& x,int){ return x; } };
template<int n> struct S<FieldMatrix<Fp2,n,n>>{ static constexpr int s=n; using V=FieldVector<Fp2,n>; static Fp2& at(FieldMatrix<Fp2,n,n>& b,int i,int j){ return b[i][j]; } static Fp2& v(V& x,int i){ return x[i]; } };
std::string jm(const Dense& A){ std::string r="["; for(std::size_t i=0;i<A.size();++i) r+=(i?",":"")+vt::js(A[i]); return r+"]"; }
std::string jp(const Pat& c){ std::string r="["; for(std::size_t i=0;i<c.size();++i) r+=(i?",":"")+vt::js(c[i]); return r+"]"; }
template<class M> Dense dense(M& a){ using B=typename M::block_type; constexpr int s=S<B>::s; Dense D(a.N()*s,std::vector<Fp2>(a.M()*s)); for(auto i=a.begin();i!=a.end();++i) for(auto e=i->begin();e!=i->end();++e) for(int p=0;p<s;++p) for(int q=0;q<s;++q) D[i.index()*s+p][e.index()*s+q]=S<B>::at(*e,p,q); return D; }
template<class M> Pat pattern(const M& a){ Pat p(a.N()); for(auto i=a.begin();i!=a.end();++i) for(auto e=i->begin();e!=i->end();++e) p[i.index()].push_back(int(e.index())); return p; }
template<class V> std::vector<Fp2> flat(V& v){ std::vector<Fp2> r; using B=typename V::block_type; for(auto& e:v) if constexpr(std::is_same_v<B,Fp2>) r.push_back(e); else for(auto& x:e) r.push_back(x); return r; }
template<class M> M make(const Pat& p){ M a(p.size(),p.size(),M::row_wise); for(auto r=a.createbegin();r!=a.createend();++r) for(int j:p[r.index()]) r.insert(j); return a; }
Pat rndPat(Rng& g,int n,bool sym,bool miss){ Pat p(n); int dens=int(g.in(0,100)); std::vector<std::vector<bool>> b(n,std::vector<bool>(n)); for(int i=0;i<n;++i) for(int j=0;j<n;++j) b[i][j]= i==j? !(miss&&g.chance(30)) : (sym&&j<i? b[j][i] : g.chance(dens)); 
  for(int i=0;i<n;++i) for(int j=0;j<n;++j) if(b[i][j]) p[i].push_back(j); return p; }
struct App { int w; std::vector<Fp2> v; std::string how; };
template<class B> void one(Rng& g,const char* type,const char* kind){ using M=BCRSMatrix<B>; constexpr int s=S<B>::s; using X=BlockVector<typename S<B>::V>; std::string k=kind; bool sym=k=="ildl";
  int n=int(g.in(1,s>2?3:s>1?4:6)); Pat p=rndPat(g,n,sym,false); M a=make<M>(p);
  for(auto i=a.begin();i!=a.end();++i) for(auto e=i->begin();e!=i->end();++e) for(int r=0;r<s;++r) for(int c=0;c<s;++c) S<B>::at(*e,r,c)=rnd(g);
  if(sym) for(auto i=a.begin();i!=a.end();++i) for(auto e=i->begin();e!=i->end();++e) for(int r=0;r<s;++r) for(int c=0;c<s;++c) if(e.index()<i.index()||(e.index()==i.index()&&c<r)){ if(e.index()==i.index()) S<B>::at(*e,r,c)=S<B>::at(*e,c,r); else S<B>::at(*e,r,c)=S<B>::at(a[e.index()][i.index()],c,r); }
  int fill= k=="ilu"? int(g.in(0,n<3?2:4)) : 0; if(k=="ilu"&&g.chance(30)) fill=0;
  Dense A=dense(a); X d(n); for(auto& e:d) for(int i=0;i<s;++i) S<B>::v(reinterpret_cast<typename S<B>::V&>(e),i)=rnd(g);
  auto d0=flat(d); std::string st="ok"; bool pure=true; vt::divzero=false; Dense F; Pat fp; std::vector<App> vs;
  auto garbage=[&](X& v){ for(auto& e:v) for(int i=0;i<s;++i) S<B>::v(reinterpret_cast<typename S<B>::V&>(e),i)=rnd(g); };
  auto prec=[&](auto&& P,int w,std::string how){ X v(n); garbage(v); X sx(v),sb(d); auto f1=flat(sx),f2=flat(sb); P.pre(sx,sb); pure&= flat(sx)==f1&&flat(sb)==f2; if(g.chance(30)){ X y(n); garbage(y); P.apply(y,d); } P.apply(v,d); P.post(sx); pure&= flat(sx)==f1; vs.push_back({w,flat(v),how}); };
  auto W=[&]{ return g.chance(40)?1:int(g.in(2,9)); }; ParameterTree c; auto op=std::make_shared<MatrixAdapter<M,X,X>>(a); std::shared_ptr<const AssembledLinearOperator<M,X,X>> cop=op;
  try {
    if(k=="ilu"){ M f; if(fill==0&&g.chance(70)){ f=a; ILU::blockILU0Decomposition(f); } else { M h(n,n,M::row_wise); ILU::blockILUDecomposition(a,fill,h); f=h; } F=dense(f); fp=pattern(f);
      { X v(n); garbage(v); ILU::blockILUBacksolve(f,v,d); vs.push_back({1,flat(v),"blockILUBacksolve"}); }
      { ILU::CRS<B> lo,up; std::vector<B> inv; X v(n); garbage(v); ILU::convertToCRS(f,lo,up,inv); ILU::blockILUBacksolve(lo,up,inv,v,d); vs.push_back({1,flat(v),"blockILUBacksolve(CRS)"}); }
      for(bool resort:{false,true}){ int w=W(); if(fill==0&&g.chance(50)) prec(SeqILU<M,X,X>(a,double(w),resort),w,"SeqILU"); else prec(SeqILU<M,X,X>(a,fill,double(w),resort),w,"SeqILU"); }
      { int w=W(); bool resort=g.chance(50); if(fill||g.chance(50)) c["n"]=std::to_string(fill); if(w!=1||g.chance(50)) c["relaxation"]=std::to_string(w); if(resort||g.chance(50)) c["resort"]=resort?"true":"false"; if(g.chance(50)) prec(SeqILU<M,X,X>(a,c),w,"SeqILU(tree)"); else prec(SeqILU<M,X,X>(cop,c),w,"SeqILU(tree)"); } }
    else if(k=="dilu"){ std::vector<B> D(n); DILU::blockDILUDecomposition(a,D); F=Dense(n*s,std::vector<Fp2>(n*s)); for(int i=0;i<n;++i) for(int r=0;r<s;++r) for(int q=0;q<s;++q) F[i*s+r][i*s+q]=S<B>::at(D[i],r,q); fp=p;
      { X v(n); garbage(v); DILU::blockDILUBacksolve(a,D,v,d); vs.push_back({1,flat(v),"blockDILUBacksolve"}); }
      int w=W(); prec(SeqDILU<M,X,X>(a,double(w)),w,"SeqDILU"); w=W(); if(w!=1||g.chance(50)) c["relaxation"]=std::to_string(w); if(g.chance(50)) prec(SeqDILU<M,X,X>(a,c),w,"SeqDILU(tree)"); else prec(SeqDILU<M,X,X>(cop,c),w,"SeqDILU(tree)"); }
    else { M f(a); bildl_decompose(f); F=dense(f); fp=p; { X v(n); garbage(v); bildl_backsolve(f,v,d); vs.push_back({1,flat(v),"bildl_backsolve"}); }
      int w=W(); prec(SeqILDL<M,X,X>(a,double(w)),w,"SeqILDL"); w=W(); if(w!=1||g.chance(50)) c["relaxation"]=std::to_string(w); if(g.chance(50)) prec(SeqILDL<M,X,X>(a,c),w,"SeqILDL(tree)"); else prec(SeqILDL<M,X,X>(cop,c),w,"SeqILDL(tree)"); }
  } catch(Dune::Exception& e){ st="err"; }
  if(st=="ok"&&vt::divzero) st="divzero"; pure&= dense(a)==A&&flat(d)==d0;
  std::string j="["; for(std::size_t i=0;i<vs.size();++i) j+=(i?",":"")+vt::Obj().f("w",vs[i].w).f("v",vs[i].v).f("how",vs[i].how).str(); j+="]";
  out<<vt::Obj().f("kind",k).f("type",type).f("n",fill).f("nb",n).f("s",s).raw("A",jm(A)).raw("pat",jp(p)).raw("F",jm(F)).raw("fpat",jp(fp)).f("d",d0).raw("vs",j).f("pure",pure).f("out",st).str()<<"\n"; }
template<class B> void diag(Rng& g){ using M=BCRSMatrix<B>; constexpr int s=S<B>::s; using X=BlockVector<typename S<B>::V>; int n=int(g.in(1,4)); Pat p=rndPat(g,n,true,true); bool miss=false; for(int i=0;i<n;++i){ bool h=false; for(int j:p[i]) h|=j==i; miss|=!h; } M a=make<M>(p);
  for(auto i=a.begin();i!=a.end();++i) for(auto e=i->begin();e!=i->end();++e) for(int r=0;r<s;++r) for(int c=0;c<s;++c) S<B>::at(*e,r,c)=rnd(g);
  auto t=[&](const char* m,auto&& f){ bool th=false; try{ f(); } catch(ISTLError&){ th=true; } out<<vt::Obj().f("kind","diag").f("m",m).raw("pat",jp(p)).f("missing",miss).f("thrown",th).str()<<"\n"; };
  t("ILU0",[&]{ M f(a); ILU::blockILU0Decomposition(f); }); t("SeqILU",[&]{ SeqILU<M,X,X> q(a,1.0); }); t("ildl",[&]{ M f(a); bildl_decompose(f); }); t("SeqILDL",[&]{ SeqILDL<M,X,X> q(a); }); }
// Singular pivot blocks: 4x4 double blocks (diagonal, small integers), inverted with a check
void sing(Rng& g){ using B=FieldMatrix<double,4,4>; using M=BCRSMatrix<B>; using X=BlockVector<FieldVector<double,4>>; int n=int(g.in(1,4));
  for(std::string k:{"ilu","dilu","ildl"}){ Pat p=rndPat(g,n,k=="ildl",false); M a=make<M>(p); int nz=int(g.in(0,25));
    for(auto i=a.begin();i!=a.end();++i) for(auto e=i->begin();e!=i->end();++e){ *e=0.0; for(int r=0;r<4;++r) (*e)[r][r]= g.chance(e.index()==i.index()?nz/3:nz)?0.0:double(g.chance(50)?1:2)*(g.chance(50)?1:-1); }
    if(k=="ildl") for(auto i=a.begin();i!=a.end();++i) for(auto e=i->begin();e!=i->end();++e) if(e.index()<i.index()) *e=a[e.index()][i.index()];
    Dense A(n*4,std::vector<Fp2>(n*4)); for(auto i=a.begin();i!=a.end();++i) for(auto e=i->begin();e!=i->end();++e) for(int r=0;r<4;++r) A[i.index()*4+r][e.index()*4+r]=Fp2(Fp(long((*e)[r][r])),Fp(0));
    int fill= k=="ilu"&&g.chance(50)? int(g.in(1,2)):0; int how=int(g.below(2)); std::string st="ok"; int er=-1,ec=-1; M b=a;
    try { if(k=="ilu"){ if(how) SeqILU<M,X,X> q(b,fill,1.0); else if(fill==0) ILU::blockILU0Decomposition(b); else { M f(n,n,M::row_wise); ILU::blockILUDecomposition(b,fill,f); } }
      else if(k=="dilu"){ if(how) SeqDILU<M,X,X> q(b,1.0); else { std::vector<B> D(n); DILU::blockDILUDecomposition(b,D); } }
      else { if(how) SeqILDL<M,X,X> q(b); else bildl_decompose(b); }
    } catch(MatrixBlockError& e){ st="block"; er=e.r; ec=k=="dilu"?e.r:e.c; } catch(Dune::Exception&){ st="err"; }
    out<<vt::Obj().f("kind","sing").f("m",k).f("n",fill).f("nb",n).f("s",4).raw("A",jm(A)).raw("pat",jp(p)).f("out",st).f("r",er).f("c",ec).f("how",how).str()<<"\n"; } }
int main(int argc,char** argv){ out.open(argv[1]); Rng g(std::stoul(argv[2])); int c=std::stoi(argv[3]);
  for(int k=0;k<c;++k){ for(const char* kind:{"ilu","ilu","dilu","ildl"}){ one<Fp2>(g,"K",kind); one<FieldMatrix<Fp2,1,1>>(g,"fm1",kind); one<FieldMatrix<Fp2,2,2>>(g,"fm2",kind); if(k%3==0) one<FieldMatrix<Fp2,3,3>>(g,"fm3",kind); }
    if(k%4==0){ diag<Fp2>(g); diag<FieldMatrix<Fp2,2,2>>(g); sing(g); } }
  std::cout<<"RECORDS"<<std::endl; }
