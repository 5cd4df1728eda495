// Replays call scripts on real MatrixIndexSet objects.
#define DUNE_ISTL_WITH_CHECKING 1
#include "config.h"
#include "replay.hh"
#include <memory>
#include <thread>
#include <barrier>
#include <dune/common/fmatrix.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/matrixindexset.hh>
using namespace Dune; using vt::js; using S=MatrixIndexSet; using M=BCRSMatrix<FieldMatrix<double,1,1>>;
using MD=BCRSMatrix<double>;
struct Run {
  static constexpr bool counted=true;
  std::vector<std::unique_ptr<S>> o; std::vector<bool> moved; std::vector<std::unique_ptr<MD>> last; std::string extra;
  void reset(int K){ o.clear(); o.resize(K+1); moved.assign(K+1,false); last.clear(); last.resize(K+1); }
  std::string obs(int k){
    if(!o[k]) return "[\"dead\"]"; if(moved[k]) return "[\"moved\"]"; const S& s=*o[k];
    std::string r="[\"ok\","+js((long)s.rows())+","+js((long)s.cols())+","+js((long)s.size())+",["; bool bad=false;
    for(std::size_t i=0;i<s.rows();++i){ r+=i?",[":"["; std::size_t n=0; std::visit([&](const auto& c){ for(auto j:c){ r+=(n++?",":"")+js((long)j); if(!c.contains(j)) bad=true; } if(c.contains(s.cols())) bad=true; },s.columnIndices(i)); if(n!=s.rowsize(i)) bad=true; r+="]"; }
    return r+"]"+(bad?",\"inconsistent\"":"")+"]"; }
  template<class X> static std::string mat(const X& m){ std::string r=js((long)m.N())+","+js((long)m.M())+","+js((long)m.nonzeroes())+",["; bool bad=m.buildStage()!=X::built; for(std::size_t i=0;i<m.N();++i){ r+=i?",[":"["; std::size_t n=0; for(auto j=m[i].begin();j!=m[i].end();++j){ r+=(n++?",":"")+js((long)j.index()); if(!m.exists(i,j.index())) bad=true; } r+="]"; } return r+"]"+(bad?",\"inconsistent\"":""); }
  static void rowwise(M& m,std::size_t n,std::size_t mm,const std::vector<std::pair<long,long>>& p){ m.setBuildMode(M::row_wise); m.setSize(n,mm); for(auto r=m.createbegin();r!=m.createend();++r) for(auto& q:p) if(q.first==long(r.index())) r.insert(q.second); }
  void step(const vt::Toks& t){
    const std::string& op=t[0]; int k=std::stoi(t[1]); auto I=[&](int i){ return std::stol(t[i]); };
    auto born=[&](S* p){ o[k].reset(p); moved[k]=false; };
    if(op=="default"){ if(I(2)<0) born(new S()); else born(new S(I(2))); }
    else if(op=="ctor"){ if(I(4)<0) born(new S(I(2),I(3))); else born(new S(I(2),I(3),I(4))); }
    else if(op=="destroy") o[k].reset();
    else if(op=="add") o[k]->add(I(2),I(3));
    else if(op=="addmany"){ long m=o[k]->cols(); for(long c=0;c<I(5);++c) o[k]->add(I(2),(I(3)+I(4)*c)%m); }
    else if(op=="paradd"){ std::size_t n=o[k]->rows(); std::vector<std::vector<long>> c(n); std::size_t q=2; for(std::size_t r=0;r<n;++r){ long cnt=I(q++); for(long x=0;x<cnt;++x) c[r].push_back(I(q++)); }
      std::barrier bar((long)n+1); std::vector<std::thread> th; S& s=*o[k]; for(std::size_t r=0;r<n;++r) th.emplace_back([&,r]{ bar.arrive_and_wait(); for(long x:c[r]) s.add(r,x); });
      th.emplace_back([&]{ bar.arrive_and_wait(); volatile std::size_t z=s.rows()+s.cols(); (void)z; }); for(auto& x:th) x.join(); }
    else if(op=="resize") o[k]->resize(I(2),I(3));
    else if(op=="import"){ M m; o[I(2)]->exportIdx(m); o[k]->import(m,I(3),I(4)); }
    else if(op=="importpat"){ std::vector<std::pair<long,long>> p; for(std::size_t i=4;i+1<t.size();i+=2) p.push_back({I(i),I(i+1)}); M m; rowwise(m,o[k]->rows()-I(2),o[k]->cols()-I(3),p); if(I(2)==0&&I(3)==0) o[k]->import(m); else o[k]->import(m,I(2),I(3)); }
    else if(op=="export"){
      std::string w=t[2];
      if(w=="fresh"){ MD m; o[k]->exportIdx(m); extra=mat(m); }
      else if(w=="sized"){ M m(o[k]->rows(),o[k]->cols(),M::random); o[k]->exportIdx(m); extra=mat(m); }
      else if(w=="random"){ M m; S tmp(2,2); tmp.add(0,1); tmp.add(1,0); tmp.exportIdx(m); m=1.0; o[k]->exportIdx(m); extra=mat(m); }
      else if(w=="rowwise"){ M m; rowwise(m,2,3,{{0,0},{1,2}}); o[k]->exportIdx(m); extra=mat(m); }
      else { if(!last[k]) last[k].reset(new MD()); o[k]->exportIdx(*last[k]); extra=mat(*last[k]); } }
    else if(op=="copyctor") born(new S(*o[I(2)]));
    else if(op=="movector"){ born(new S(std::move(*o[I(2)]))); moved[I(2)]=true; }
    else if(op=="assign"){ *o[k]=*o[I(2)]; moved[k]=false; }
    else if(op=="moveassign"){ *o[k]=std::move(*o[I(2)]); moved[k]=false; moved[I(2)]=true; }
    else throw std::logic_error("op "+op); }
};
int main(int argc,char** argv){ std::ifstream f(argv[1]); Run r; return vt::replayMain(r,f,argc>2?std::stol(argv[2]):0); }
