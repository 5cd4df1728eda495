// Replays call scripts on real BCRSMatrix objects and prints what is observable after each call.
#define DUNE_ISTL_WITH_CHECKING 1
#include "config.h"
#include "fp.hh"
#include "replay.hh"
#include "strict.hh"
#include <fstream>
#include <memory>
#include <dune/common/fmatrix.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/matrixindexset.hh>
#include <dune/istl/matrix.hh>
using namespace Dune;
using vt::js;
template<class B> struct Blk;
template<> struct Blk<double> { static void set(double& b,int v){ b=v; } static int get(const double& b){ return (b>=-1e6 && b<=1e6 && b==int(b))?int(b):-99999; } };
template<int n,int m> struct Blk<FieldMatrix<double,n,m>> {
  static void set(FieldMatrix<double,n,m>& b,int v){ for(auto& r:b) for(auto& x:r) x=v; }
  static int get(const FieldMatrix<double,n,m>& b){ int v=Blk<double>::get(b[0][0]); for(auto& r:b) for(auto& x:r) if(!(x==b[0][0])) return -99999; return v; } };
template<> struct Blk<Matrix<double>> {   // block with a nontrivial destructor
  static void set(Matrix<double>& b,int v){ if(b.N()!=1||b.M()!=1) b.setSize(1,1); b[0][0]=v; }
  static int get(const Matrix<double>& b){ if(b.N()!=1||b.M()!=1) return -99999; return Blk<double>::get(b[0][0]); } };

template<class B> struct Run {
  using M=BCRSMatrix<B,vt::Strict<B>>; using CI=typename M::CreateIterator;
  std::vector<std::unique_ptr<M>> o; std::vector<std::unique_ptr<CI>> ci; std::string extra;
  void reset(int K){ ci.clear(); o.clear(); o.resize(K+1); ci.resize(K+1); }
  static typename M::BuildMode mode(const std::string& s){ return s=="random"?M::random:s=="row_wise"?M::row_wise:s=="implicit"?M::implicit:M::unknown; }
  std::string obs(int k){
    if(!o[k]) return "[\"dead\"]";
    const M& m=*o[k]; const char* st[]={"notAllocated","building","rowSizesBuilt","built"};
    std::string s= m.buildStage()==M::notAllocated?st[0]:m.buildStage()==M::building?st[1]:m.buildStage()==M::rowSizesBuilt?st[2]:st[3];
    std::string r="["+js(s)+","+js(m.N())+","+js(m.M());
    if(m.buildStage()==M::built){
      std::size_t cnt=0; std::string rows="["; bool bad=false;
      std::size_t ri=0;
      for(auto i=m.begin();i!=m.end();++i,++ri){ if(i.index()!=ri) bad=true; rows+=(ri?",[":"["); bool f=true; std::size_t inrow=0; long last=-1;
        for(auto j=i->begin();j!=i->end();++j){ ++cnt; ++inrow; if(!f) rows+=","; f=false; int v=Blk<B>::get(*j); if(long(j.index())<=last) bad=true; last=j.index();
          if(!m.exists(ri,j.index())) bad=true; if(&m[ri][j.index()]!=&*j) bad=true;
          if(i->find(j.index())==i->end() || i->find(j.index()).index()!=j.index()) bad=true;
          rows+="["+js(j.index())+","+js(v)+"]"; }
        if(i->size()!=inrow || m.getrowsize(ri)!=inrow) bad=true;
        // backward iteration sees the same entries
        std::size_t back=0; if(inrow>0) for(auto j=i->beforeEnd();j!=i->beforeBegin();--j) ++back; if(back!=inrow) bad=true;
        std::size_t ex=0; for(std::size_t j=0;j<m.M();++j) if(m.exists(ri,j)) ++ex; if(ex!=inrow) bad=true;
        rows+="]"; }
      if(ri!=m.N()) bad=true;
      r+=","+js(cnt)+","+rows+"]"+(bad?",\"inconsistent\"":"");
    }
    return r+"]";
  }
  void step(const std::vector<std::string>& t){
    const std::string& op=t[0]; int k=std::stoi(t[1]); auto I=[&](int i){ return std::stol(t[i]); }; extra="";
    if(op=="default"){ o[k].reset(new M()); }
    else if(op=="ctor"){ long c=I(4); if(c>0) o[k].reset(new M(I(2),I(3),c,mode(t[5]))); else o[k].reset(new M(I(2),I(3),mode(t[5]))); }
    else if(op=="ctorimp") o[k].reset(new M(I(2),I(3),I(4),I(5)/100.0,M::implicit));
    else if(op=="destroy"){ ci[k].reset(); o[k].reset(); }
    else if(op=="setmode") o[k]->setBuildMode(mode(t[2]));
    else if(op=="setsize"){ ci[k].reset(); if(I(4)>0) o[k]->setSize(I(2),I(3),I(4)); else o[k]->setSize(I(2),I(3)); }
    else if(op=="setimp") o[k]->setImplicitBuildModeParameters(I(2),I(3)/100.0);
    else if(op=="rowsize") o[k]->setrowsize(I(2),I(3));
    else if(op=="incsize"){ if(I(3)==1) o[k]->incrementrowsize(I(2)); else o[k]->incrementrowsize(I(2),I(3)); }
    else if(op=="endsizes") o[k]->endrowsizes();
    else if(op=="addindex") o[k]->addindex(I(2),I(3));
    else if(op=="setindices"){ std::vector<std::size_t> v; for(std::size_t i=4;i<t.size();++i) v.push_back(std::stol(t[i])); if(t[3]=="1") o[k]->setIndicesNoSort(I(2),v.begin(),v.end()); else o[k]->setIndices(I(2),v.begin(),v.end()); }
    else if(op=="endindices") o[k]->endindices();
    else if(op=="createbegin"){ ci[k].reset(new CI(o[k]->createbegin())); if(!(*ci[k]!=o[k]->createend())) ci[k].reset(); }
    else if(op=="insert"){ std::size_t before=ci[k]->size(); bool had=ci[k]->contains(I(2)); ci[k]->insert(I(2)); if(!ci[k]->contains(I(2)) || ci[k]->size()!=before+(had?0:1)) extra="\"pattern\""; }
    else if(op=="next"){ try{ ++*ci[k]; }catch(...){ ci[k].reset(); throw; } if(o[k]->buildStage()==M::built) ci[k].reset(); }
    else if(op=="entry"){ Blk<B>::set(o[k]->entry(I(2),I(3)),I(4)); }
    else if(op=="entryadd"){ B& b=o[k]->entry(I(2),I(3)); Blk<B>::set(b,Blk<B>::get(b)+I(4)); }
    else if(op=="compress"){ auto s=o[k]->compress(); extra=js((long)s.overflow_total)+","+js((long)s.maximum)+","+js((long)(s.avg*o[k]->N()+0.5)); }
    else if(op=="write") Blk<B>::set((*o[k])[I(2)][I(3)],I(4));
    else if(op=="fill"){
      if constexpr(std::is_same_v<B,Matrix<double>>){ if(o[k]->buildStage()==M::built){ for(auto& r:*o[k]) for(auto& b:r) Blk<B>::set(b,I(2)); } *o[k]=double(I(2)); }
      else *o[k]=double(I(2)); }
    else if(op=="nonzeroes"){ extra=js((long)o[k]->nonzeroes()); }
    else if(op=="scale") *o[k]*=double(I(2));
    else if(op=="div"){ *o[k]/=0.5; *o[k]/=2.0; }
    else if(op=="neg") *o[k]*=-1.0;
    else if(op=="axpy"){ long a=I(3); M& b=*o[I(2)]; if(a==1) *o[k]+=b; else if(a==-1) *o[k]-=b; else if constexpr(std::is_same_v<B,Matrix<double>>){ M tmp(b); tmp*=double(a); *o[k]+=tmp; } else o[k]->axpy(a,b); }
    else if(op=="copyctor"){ o[k].reset(new M(*o[I(2)])); }
    else if(op=="assign"){ *o[k]=*o[I(2)]; }
    else if(op=="build") build(k,t);
    else throw std::logic_error("op "+op);
    if constexpr(std::is_same_v<B,Matrix<double>>) if(o[k] && o[k]->buildStage()==M::built) for(auto& r:*o[k]) for(auto& b:r) if(b.N()!=1) Blk<B>::set(b,0);
  }
  void build(int k,const std::vector<std::string>& t){
    auto I=[&](int i){ return std::stol(t[i]); };
    long n=I(2),m=I(3); std::string how=t[4]; long slack=I(5); std::vector<std::vector<long>> p(n); long nnz=0;
    for(std::size_t i=6;i+1<t.size();i+=2){ p[std::stol(t[i])].push_back(std::stol(t[i+1])); ++nnz; }
    if(how=="rowwise"||how=="rowwisennz"){
      if(how=="rowwise"||nnz==0) o[k].reset(new M(n,m,M::row_wise)); else o[k].reset(new M(n,m,nnz+slack,M::row_wise));
      for(auto c=o[k]->createbegin();c!=o[k]->createend();++c) for(long j:p[c.index()]) c.insert(j); }
    else if(how=="random"||how=="randomnnz"){
      long pad=0; for(long i=0;i<n;++i) pad+=std::min<long>(m,p[i].size()+slack);
      if(how=="random"||pad==0) o[k].reset(new M(n,m,M::random)); else o[k].reset(new M(n,m,pad+slack,M::random));
      for(long i=0;i<n;++i) o[k]->setrowsize(i,std::min<long>(m,p[i].size()+slack));
      o[k]->endrowsizes(); for(long i=0;i<n;++i) for(auto j=p[i].rbegin();j!=p[i].rend();++j) o[k]->addindex(i,*j); o[k]->endindices(); }
    else { o[k].reset(new M(n,m,1+slack,3.0,M::implicit)); for(long i=0;i<n;++i) for(auto j=p[i].rbegin();j!=p[i].rend();++j) Blk<B>::set(o[k]->entry(i,*j),0); o[k]->compress(); }
  }
  static constexpr bool counted=true;
  std::string name(Dune::Exception& e){ return dynamic_cast<Dune::ImplicitModeCompressionBufferExhausted*>(&e)?"exhausted":"err"; }
  int main(std::istream& in,long from){ return vt::replayMain(*this,in,from); }
};
int main(int argc,char** argv){
  std::ifstream f(argv[2]); long from=argc>3?std::stol(argv[3]):0; std::string b=argv[1];
  if(b=="double"){ Run<double> r; return r.main(f,from); }
  if(b=="f11"){ Run<FieldMatrix<double,1,1>> r; return r.main(f,from); }
  if(b=="f23"){ Run<FieldMatrix<double,2,3>> r; return r.main(f,from); }
  if(b=="dyn"){ Run<Matrix<double>> r; return r.main(f,from); }
  return 3;
}
