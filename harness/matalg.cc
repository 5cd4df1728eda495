// P04: matrix algebra on random structures; ND-JSON records for spec/MatAlg.tla
#define DUNE_ISTL_WITH_CHECKING 1
#include "config.h"
#include "flat.hh"
#include <fstream>
#include <dune/istl/matrixmatrix.hh>
#include <dune/istl/matrixutils.hh>
using namespace vt; using namespace Dune;
static std::ofstream out; static long nrec=0;
template<class M> std::string tab(const M& A,const Dim& rd,const Dim& cd,bool& ok){ Tab t; Mat<M>::read(A,{},{},0,0,rd,cd,t,ok); return jsv(t); }
static std::vector<int> sz(const Dim& d){ std::vector<int> r; for(auto& x:d.s) r.push_back(x.flat()); return r; }
template<class M> Obj start(const char* kind,const char* name){ Obj o; o.f("kind",std::string(kind)).f("type",std::string(name)); return o; }
static void put(Obj& o){ out<<o.str()<<"\n"; nrec++; }
// patterns: B's pattern is a subset of A's
inline Pat subPat(Rng& g,const Pat& p){ Pat q(p.size()); int d=g.in(0,100); for(std::size_t i=0;i<p.size();i++) for(int j:p[i]) if(g.below(100)<d) q[i].push_back(j); return q; }
template<class B> void sums(const char* name,Rng& g,int iters){
  using M=BCRSMatrix<B>; using K=typename M::field_type;
  for(int it=0;it<iters;it++){
    Dim rd=Mat<M>::rdim(g,3),cd=Mat<M>::cdim(g,3); Pat pa=rndPat(g,rd.s.size(),cd.s.size()); Pat pb=g.chance(50)?pa:subPat(g,pa);
    M A,Bm; Tab ta,tb; Mat<M>::fillPat(A,g,rd,cd,pa,{},{},0,0,ta); if constexpr(std::is_same_v<B,BCRSMatrix<double>>){ Bm=A; Bm*=K(-2); bool o=true; Mat<M>::read(Bm,{},{},0,0,rd,cd,tb,o); } else Mat<M>::fillPat(Bm,g,rd,cd,pb,{},{},0,0,tb);
    int ops=g.in(1,3); // short histories of in-place operations on A
    for(int k=0;k<ops;k++){
      int op=g.below(7); int ar=1,ai=0; K al=rndInv<K>(g,ar,ai); bool ok=true; std::string before=tab(A,rd,cd,ok), res="ok"; static const char* NM[]={"add","sub","axpy","mul","div","fill","negadd"};
      try { switch(op){ case 0: A+=Bm; break; case 1: A-=Bm; break; case 2: A.axpy(al,Bm); break; case 3: A*=al; break;
        case 4: if(std::is_integral_v<K>||Sc<K>::cx) { ar=-1; ai=0; al=K(-1);} else { ar= g.chance(50)?1:-1; al=K(ar);} A/=al; break; case 5: A=al; break; case 6: A*=K(-1); A+=Bm; break; } }
      catch(Dune::Exception&){ res="err"; }
      std::string after=tab(A,rd,cd,ok), b2=tab(Bm,rd,cd,ok); if(!ok) res="inexact";
      Obj o=start<M>("sum",name); o.f("op",std::string(NM[op])).f("al",std::vector<int>{ar,ai}).raw("A",before).raw("B",jsv(tb)).raw("A2",after).f("same",b2==jsv(tb)).f("out",res); put(o);
    }
    // refused: other size
    if(it%4==0&&!rd.s.empty()&&!cd.s.empty()){ Dim rx=rd; if(g.chance(50)) rx.s.push_back(rd.s[0]); else rx.s.pop_back(); Dim cx=cd; if(g.chance(40)){ rx=rd; cx.s.pop_back(); }
      M C; Tab tc; Mat<M>::fillPat(C,g,rx,cx,rndPat(g,rx.s.size(),cx.s.size()),{},{},0,0,tc); bool ok=true; std::string before=tab(A,rd,cd,ok),res="ok"; int op=g.below(3);
      try { if(op==0) A+=C; else if(op==1) A-=C; else A.axpy(K(2),C); } catch(Dune::Exception&){ res="err"; }
      std::string after=tab(A,rd,cd,ok); Obj o=start<M>("size",name); o.f("op",op).f("out",res).f("same",before==after&&ok); put(o); }
  }
}
template<class K,int n,int k,int m> void products(const char* name,Rng& g,int iters){
  for(int it=0;it<iters;it++) for(int w=0;w<3;w++){
    auto run=[&](auto& A,auto& Bm,auto& C,auto call,const char* op,int inner1,int inner2){
      using MA=std::decay_t<decltype(A)>; using MB=std::decay_t<decltype(Bm)>; using MC=std::decay_t<decltype(C)>;
      Dim ra,ca,rb,cb; Rng& r=g; auto mk=[&](int cnt,int f){ Dim d; d.leaf=false; for(int i=0;i<cnt;i++) d.s.push_back(leaves(f)); return d; };
      int p=r.in(0,4),q=r.in(0,4),s=r.in(0,4); bool mism=r.chance(5); int q2=mism?q+1:q;
      using BA=typename MA::block_type; using BB=typename MB::block_type; using BC=typename MC::block_type;
      if(w==0){ ra=mk(p,BA::rows); ca=mk(q,BA::cols); rb=mk(q2,BB::rows); cb=mk(s,BB::cols); }
      if(w==1){ ra=mk(q,BA::rows); ca=mk(p,BA::cols); rb=mk(q2,BB::rows); cb=mk(s,BB::cols); }
      if(w==2){ ra=mk(p,BA::rows); ca=mk(q,BA::cols); rb=mk(s,BB::rows); cb=mk(q2,BB::cols); }
      Tab ta,tb; Mat<MA>::fillPat(A,g,ra,ca,rndPat(g,ra.s.size(),ca.s.size()),{},{},0,0,ta); Mat<MB>::fillPat(Bm,g,rb,cb,rndPat(g,rb.s.size(),cb.s.size()),{},{},0,0,tb);
      Dim rc=mk(p,BC::rows),cc=mk(s,BC::cols);
      if(r.chance(40)){ Tab td; Dim x=mk(r.in(0,3),BC::rows),y=mk(r.in(0,3),BC::cols); C.~MC(); new(&C) MC; buildBCRS(C,x.s.size(),y.s.size(),rndPat(g,x.s.size(),y.s.size()),x.s.size()?r.below(2):1); C=K(7); }
      std::string res="ok"; try { call(C,A,Bm); } catch(Dune::Exception&){ res="err"; }
      bool ok=true; std::string tc="[]"; if(res=="ok"){ tc=tab(C,rc,cc,ok); if(C.nonzeroes()>1000) ok=false; long cnt=0; for(auto&& row:C) for([[maybe_unused]] auto&& e:row) cnt++; if(long(C.nonzeroes())!=cnt) res="nnz"; } if(!ok) res="shape";
      bool sm=tab(A,ra,ca,ok)==jsv(ta)&&tab(Bm,rb,cb,ok)==jsv(tb);
      Obj o=start<MA>("prod",name); o.f("op",std::string(op)).f("mism",mism).raw("A",jsv(ta)).raw("B",jsv(tb)).raw("C",tc).f("out",res).f("same",sm); put(o); };
    if(w==0){ BCRSMatrix<FieldMatrix<K,n,k>> A; BCRSMatrix<FieldMatrix<K,k,m>> B; BCRSMatrix<FieldMatrix<K,n,m>> C; run(A,B,C,[](auto& C,auto& A,auto& B){ matMultMat(C,A,B); },"AB",0,0); }
    if(w==1){ BCRSMatrix<FieldMatrix<K,k,n>> A; BCRSMatrix<FieldMatrix<K,k,m>> B; BCRSMatrix<FieldMatrix<K,n,m>> C; run(A,B,C,[](auto& C,auto& A,auto& B){ transposeMatMultMat(C,A,B); },"AtB",0,0); }
    if(w==2){ BCRSMatrix<FieldMatrix<K,n,k>> A; BCRSMatrix<FieldMatrix<K,m,k>> B; BCRSMatrix<FieldMatrix<K,n,m>> C; run(A,B,C,[](auto& C,auto& A,auto& B){ matMultTransposeMat(C,A,B); },"ABt",0,0); }
  }
}
template<class B> void dense(const char* name,Rng& g,int iters){
  using M=Matrix<B>; using K=typename M::field_type;
  for(int it=0;it<iters;it++){
    auto mk=[&](int n){ Dim d; d.leaf=false; for(int i=0;i<n;i++) d.s.push_back(Mat<B>::rdim(g,0)); return d; };
    int p=g.in(0,3),q=g.in(0,3),s=g.in(0,3); Dim P=mk(p),Q=mk(q),S=mk(s); M A,Bm,C; Tab ta,tb,tc; bool ok=true;
    Mat<M>::fill(A,g,P,Q,{},{},0,0,ta); Mat<M>::fill(Bm,g,Q,S,{},{},0,0,tb); Mat<M>::fill(C,g,P,Q,{},{},0,0,tc);
    { std::string res="ok",t; try { M X=A*Bm; t=tab(X,P,S,ok); if(X.N()!=std::size_t(p)||X.M()!=std::size_t(s)) res="shape"; } catch(Dune::Exception&){ res="err"; t="[]"; } if(!ok) res="inexact";
      Obj o=start<M>("dprod",name); o.f("R",P.flat()).f("C",S.flat()).raw("A",tab(A,P,Q,ok)).raw("B",tab(Bm,Q,S,ok)).raw("X",t).f("out",res); put(o); }
    { std::string res="ok",t; M X; if(g.chance(50)) Mat<M>::fill(X,g,mk(g.in(0,3)),mk(g.in(0,3)),{},{},0,0,tc=Tab()); X=A.transpose(); if(X.N()!=std::size_t(q)||X.M()!=std::size_t(p)) res="shape"; else t=tab(X,Q,P,ok); if(!ok) res="inexact";
      Obj o=start<M>("dtrans",name); o.raw("A",tab(A,P,Q,ok)).raw("X",t.empty()?"[]":t).f("out",res); put(o); }
    { tc=Tab(); Mat<M>::fill(C,g,P,Q,{},{},0,0,tc); int op=g.below(5); static const char* NM[]={"add","sub","mul","div","fill"}; int ar,ai; K al=rndInv<K>(g,ar,ai); if(op==3){ ar=-1; ai=0; al=K(-1);} if(op==4&&!std::is_same_v<B,K>){ op=2; }
      std::string before=tab(A,P,Q,ok),res="ok"; try { if(op==0) A+=C; else if(op==1) A-=C; else if(op==2) A*=al; else if(op==3) A/=al; else A=al; } catch(Dune::Exception&){ res="err"; }
      std::string after=tab(A,P,Q,ok); if(!ok) res="inexact"; Obj o=start<M>("sum",name); o.f("op",std::string(NM[op])).f("al",std::vector<int>{ar,ai}).raw("A",before).raw("B",jsv(tc)).raw("A2",after).f("same",tab(C,P,Q,ok)==jsv(tc)).f("out",res); put(o); }
    { Dim P2=mk(p+(g.chance(50)?1:0)); Dim Q2=P2.s.size()==P.s.size()?mk(q+1):Q; M D; Tab td; Mat<M>::fill(D,g,P2,Q2,{},{},0,0,td); std::string before=tab(A,P,Q,ok),res="ok"; int op=g.below(2); try { if(op) A+=D; else A-=D; } catch(Dune::Exception&){ res="err"; }
      Obj o=start<M>("size",name); o.f("op",op).f("out",res).f("same",tab(A,P,Q,ok)==before&&ok); put(o); }
    { // history of assignments between objects of different shape, self assignment, resizing
      M X; Tab tx; Dim P2=mk(g.in(0,3)),Q2=mk(g.in(0,3)); Mat<M>::fill(X,g,P2,Q2,{},{},0,0,tx); M Y(X); X=A; std::string res="ok"; if(X.N()!=A.N()||X.M()!=A.M()) res="shape"; if(Y.N()!=P2.s.size()||Y.M()!=Q2.s.size()) res="shape";
      std::string t1=res=="ok"?tab(X,P,Q,ok):"[]", t2=tab(A,P,Q,ok), y=res=="ok"?tab(Y,P2,Q2,ok):"[]";
      if(res=="ok"&&p&&q){ if constexpr(std::is_same_v<B,K>) X[p-1][q-1]=K(99); else X[p-1][q-1]=K(99); if(tab(A,P,Q,ok)!=t2) res="alias"; }
      Obj o=start<M>("copy",name); o.raw("A",t2).raw("X",t1).raw("Y",y).raw("Y0",jsv(tx)).f("out",res); put(o); }
  }
}
// square-block helpers used below: product A*x of the dense matrix as operator
template<class K> void densevec(const char* name,Rng& g,int iters){
  for(int it=0;it<iters;it++){ using M=Matrix<K>; Dim P,Q; P.leaf=Q.leaf=false; P.s.resize(g.in(0,3)); Q.s.resize(g.in(0,3)); M A; Tab ta; Mat<M>::fill(A,g,P,Q,{},{},0,0,ta); BlockVector<K> x; Flat fx=rndVec(x,Q,g);
    std::string res="ok"; Flat fy; bool ok=true; try { BlockVector<K> y=operator*<BlockVector<K>,BlockVector<K>>(A,x); fy=readVec(y,ok); } catch(Dune::Exception&){ res="err"; } if(!ok) res="inexact";
    Obj o=start<M>("dvec",name); o.f("R",P.flat()).f("A",ta).f("x",fx).f("y",fy).f("out",res); put(o); }
}
// instances enumerated by TLC: op n k m |PA| pairs |PB| pairs
template<class K,int n,int k,int m> void small(const char* name,const std::string& f,Rng& g){
  std::ifstream in(f); int op,a,b,c,x; auto mk=[&](int cnt,int f){ Dim d; d.leaf=false; for(int i=0;i<cnt;i++) d.s.push_back(leaves(f)); return d; };
  auto rp=[&](int rows){ Pat p(rows); int e,i,j; in>>e; while(e--){ in>>i>>j; p[i].push_back(j); } for(auto& r:p) std::sort(r.begin(),r.end()); return p; };
  while(in>>op>>a>>b>>c){ Pat pa=rp(op==1?b:a),pb=rp(op==2?c:b); Tab ta,tb; Dim rc=mk(a,n),cc=mk(c,m);
    auto run=[&](auto& A,auto& B,auto& C,Dim ra,Dim ca,Dim rb,Dim cb,auto call,const char* on){ using MA=std::decay_t<decltype(A)>; using MB=std::decay_t<decltype(B)>;
      Mat<MA>::fillPat(A,g,ra,ca,pa,{},{},0,0,ta); Mat<MB>::fillPat(B,g,rb,cb,pb,{},{},0,0,tb); std::string res="ok",tc="[]"; bool ok=true; try { call(C,A,B); tc=tab(C,rc,cc,ok); } catch(Dune::Exception&){ res="err"; } if(!ok) res="shape";
      bool sm=tab(A,ra,ca,ok)==jsv(ta)&&tab(B,rb,cb,ok)==jsv(tb); Obj o=start<MA>("prod",name); o.f("op",std::string(on)).f("mism",false).raw("A",jsv(ta)).raw("B",jsv(tb)).raw("C",tc).f("out",res).f("same",sm); put(o); };
    if(op==0){ BCRSMatrix<FieldMatrix<K,n,k>> A; BCRSMatrix<FieldMatrix<K,k,m>> B; BCRSMatrix<FieldMatrix<K,n,m>> C; run(A,B,C,mk(a,n),mk(b,k),mk(b,k),mk(c,m),[](auto& C,auto& A,auto& B){ matMultMat(C,A,B); },"AB"); }
    if(op==1){ BCRSMatrix<FieldMatrix<K,k,n>> A; BCRSMatrix<FieldMatrix<K,k,m>> B; BCRSMatrix<FieldMatrix<K,n,m>> C; run(A,B,C,mk(b,k),mk(a,n),mk(b,k),mk(c,m),[](auto& C,auto& A,auto& B){ transposeMatMultMat(C,A,B); },"AtB"); }
    if(op==2){ BCRSMatrix<FieldMatrix<K,n,k>> A; BCRSMatrix<FieldMatrix<K,m,k>> B; BCRSMatrix<FieldMatrix<K,n,m>> C; run(A,B,C,mk(a,n),mk(b,k),mk(c,m),mk(b,k),[](auto& C,auto& A,auto& B){ matMultTransposeMat(C,A,B); },"ABt"); }
  }
}
int main(int argc,char** argv){
  out.open(argv[1]); Rng g(std::atol(argv[2])); int I=std::atoi(argv[3]); using C=std::complex<double>;
#if PART==0
  sums<double>("bcrs<double>",g,I); sums<C>("bcrs<complex>",g,I); sums<FieldMatrix<double,2,3>>("bcrs<23>",g,I); sums<FieldMatrix<C,2,2>>("bcrs<c22>",g,I); sums<int>("bcrs<int>",g,I); sums<BCRSMatrix<double>>("bcrs<bcrs>",g,I/2);
#elif PART==1
  small<double,1,1,1>("p<1,1,1>",argv[4],g); products<double,1,1,1>("p<1,1,1>",g,I); products<C,2,1,3>("p<c2,1,3>",g,I/2);
#elif PART==2
  products<double,2,3,1>("p<2,3,1>",g,I); products<int,2,2,2>("p<i2,2,2>",g,I/2);
#else
  densevec<double>("dense<double>",g,I); densevec<C>("dense<complex>",g,I);
  dense<double>("dense<double>",g,I); dense<C>("dense<complex>",g,I); dense<FieldMatrix<double,2,2>>("dense<22>",g,I/2);
#endif
  std::cout<<"RECORDS "<<nrec<<"\n";
}
