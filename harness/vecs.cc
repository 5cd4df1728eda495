// Replays call scripts on real BlockVector / VariableBlockVector objects.
#define DUNE_ISTL_WITH_CHECKING 1
#include "config.h"
#include "replay.hh"
#include <memory>
#include <dune/common/fvector.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/vbvector.hh>
using namespace Dune; using vt::js;
template<class B> struct Blk;
template<> struct Blk<double>{ static constexpr int w=1; static void set(double& b,int v){ b=v; } static int get(const double& b){ return (b>=-1e6&&b<=1e6&&b==int(b))?int(b):-99999; } };
template<int n> struct Blk<FieldVector<double,n>>{ static constexpr int w=n; static void set(FieldVector<double,n>& b,int v){ for(auto& x:b) x=v; }
  static int get(const FieldVector<double,n>& b){ int v=Blk<double>::get(b[0]); for(auto& x:b) if(!(x==b[0])) return -99999; return v; } };
template<> struct Blk<BlockVector<double>>{ static constexpr int w=1; static void set(BlockVector<double>& b,int v){ b.resize(1); b[0]=v; }
  static int get(const BlockVector<double>& b){ if(b.size()==0) return 0; return b.size()==1?Blk<double>::get(b[0]):-99999; } };
template<class B> std::string val(const B& b){ return js(Blk<B>::get(b)); }
template<class V> void norms(const V& v,std::string& extra,int w){
  extra=js((long)(v.one_norm()/w))+","+js((long)(v.two_norm2()/w))+","+js((long)v.infinity_norm())+","+js((long)(v.dim()/w));
  const auto& c=v; if(std::abs(c.two_norm()*c.two_norm()-c.two_norm2())>1e-6*(1+c.two_norm2())) extra+=",\"two_norm\"";
  if(c.one_norm_real()!=c.one_norm()||c.infinity_norm_real()!=c.infinity_norm()) extra+=",\"real\""; }
template<class B> struct BV {
  static constexpr bool counted=true;
  using V=BlockVector<B>; static constexpr int w=Blk<B>::w;
  std::vector<std::unique_ptr<V>> o; std::vector<bool> moved; std::string extra;
  void reset(int K){ o.clear(); o.resize(K+1); moved.assign(K+1,false); }
  std::string obs(int k){
    if(!o[k]) return "[\"dead\"]"; if(moved[k]) return "[\"moved\"]";
    const V& v=*o[k]; V& m=*o[k]; std::string r="[\"ok\",["; std::size_t n=0; bool bad=v.size()!=v.N()||v.capacity()<v.size();
    for(auto i=v.begin();i!=v.end();++i,++n){ r+=(n?",[":"[")+val(*i)+"]"; if(i.index()!=n||&*i!=&v[n]||v.find(n).index()!=n||&*v.find(n)!=&*i) bad=true; if(&m[n]!=&v[n]||&*m.find(n)!=&m[n]) bad=true; }
    if(n!=v.size()) bad=true; std::size_t b=0; if(n>0) for(auto i=v.beforeEnd();i!=v.beforeBegin();--i) ++b; if(b!=n) bad=true;
    if(v.find(n)!=v.end()||v.find(n+3)!=v.end()||m.find(n+1)!=m.end()) bad=true;
    std::size_t e=0; for(auto i=m.begin();i!=m.end();++i) ++e; if(e!=n) bad=true;
    return r+"]"+(bad?",\"inconsistent\"":"")+"]"; }
  void step(const vt::Toks& t){
    const std::string& op=t[0]; int k=std::stoi(t[1]); auto I=[&](int i){ return std::stol(t[i]); };
    auto born=[&](V* p){ o[k].reset(p); moved[k]=false; };
    if(op=="default") born(new V());
    else if(op=="ctor") born(new V(I(2)));
    else if(op=="ctorcap") born(new V(I(2),I(3)));
    else if(op=="list"){ std::vector<B> l(t.size()-2); for(std::size_t i=2;i<t.size();++i) Blk<B>::set(l[i-2],I(i));
      switch(l.size()){ case 0: born(new V(std::initializer_list<B>{})); break; case 1: born(new V(std::initializer_list<B>{l[0]})); break; case 2: born(new V{l[0],l[1]}); break; case 3: born(new V{l[0],l[1],l[2]}); break; case 4: born(new V{l[0],l[1],l[2],l[3]}); break; default: throw std::logic_error("list"); } }
    else if(op=="copyctor") born(new V(*o[I(2)]));
    else if(op=="movector"){ born(new V(std::move(*o[I(2)]))); moved[I(2)]=true; }
    else if(op=="assign"){ *o[k]=*o[I(2)]; moved[k]=false; }
    else if(op=="moveassign"){ *o[k]=std::move(*o[I(2)]); moved[k]=false; moved[I(2)]=true; }
    else if(op=="swap"){ o[k]->swap(*o[I(2)]); bool x=moved[k]; moved[k]=moved[I(2)]; moved[I(2)]=x; }
    else if(op=="destroy") o[k].reset();
    else if(op=="reserve"){ o[k]->reserve(I(2)); if(long(o[k]->capacity())<I(2)) extra="\"capacity\""; }
    else if(op=="resize"){ o[k]->resize(I(2)); moved[k]=false; }
    else if(op=="write") Blk<B>::set((*o[k])[I(2)],I(4));
    else if(op=="fill"){ if constexpr(std::is_same_v<B,BlockVector<double>>) for(auto& b:*o[k]) if(b.size()!=1) b.resize(1); *o[k]=double(I(2)); }
    else if(op=="scale") *o[k]*=double(I(2));
    else if(op=="div") *o[k]/=0.5;
    else if(op=="add"){ same(k,I(2)); *o[k]+=*o[I(2)]; }
    else if(op=="sub"){ same(k,I(2)); *o[k]-=*o[I(2)]; }
    else if(op=="axpy"){ same(k,I(2)); o[k]->axpy(double(I(3)),*o[I(2)]); }
    else if(op=="dot"){ same(k,I(2)); double d=o[k]->dot(*o[I(2)]), e=(*o[k])*(*o[I(2)]); extra=js((long)(d/w)); if(d!=e) extra+=",\"dot\""; if(Dune::dot(*o[k],*o[I(2)])!=d||Dune::dotT(*o[k],*o[I(2)])!=d) extra+=",\"free\""; }
    else if(op=="norms"){ same(k,k); norms(*o[k],extra,w); }
    else throw std::logic_error("op "+op); }
  void same(int a,int b){ if constexpr(std::is_same_v<B,BlockVector<double>>){ V& x=*o[a]; V& y=*o[b]; if(x.size()==y.size()) for(std::size_t i=0;i<x.size();++i){ if(x[i].size()!=1) x[i].resize(1); if(y[i].size()!=1) y[i].resize(1); } } }
};
template<class B> struct VBV {
  static constexpr bool counted=true;
  using V=VariableBlockVector<B>; static constexpr int w=Blk<B>::w;
  std::vector<std::unique_ptr<V>> o; std::vector<int> st; std::string extra;   // 0 ok 1 raw 2 moved
  void reset(int K){ o.clear(); o.resize(K+1); st.assign(K+1,0); }
  std::string obs(int k){
    if(!o[k]) return "[\"dead\"]"; if(st[k]==2) return "[\"moved\"]"; if(st[k]==1) return "[\"raw\","+js((long)o[k]->N())+"]";
    const V& v=*o[k]; V& m=*o[k]; std::string r="[\"ok\",["; std::size_t n=0,tot=0; bool bad=v.size()!=v.N();
    const B* next=nullptr;
    for(auto i=v.begin();i!=v.end();++i,++n){ r+=(n?",[":"["); if(i.index()!=n||&*i!=&v[n]||&*v.find(n)!=&v[n]||v.find(n).index()!=n||&m[n]!=&v[n]||m.find(n).index()!=n) bad=true;
      std::size_t j=0; for(auto q=i->begin();q!=i->end();++q,++j){ r+=(j?",":"")+val(*q); if(q.index()!=j||&*q!=&v[n][j]) bad=true; if(next&&&*q!=next) bad=true; next=&*q+1; } if(j!=i->size()||j!=i->N()) bad=true; tot+=j; r+="]"; }
    if(n!=v.N()) bad=true; std::size_t b=0; if(n>0){ for(auto i=v.beforeEnd();i!=v.beforeBegin();--i){ ++b; } } if(b!=n) bad=true;
    if(v.find(n)!=v.end()||v.find(n+2)!=v.end()||m.find(n)!=m.end()) bad=true; if(v.dim()!=tot*w) bad=true;
    return r+"]"+(bad?",\"inconsistent\"":"")+"]"; }
  void step(const vt::Toks& t){
    const std::string& op=t[0]; int k=std::stoi(t[1]); auto I=[&](int i){ return std::stol(t[i]); };
    auto born=[&](V* p,int s){ o[k].reset(p); st[k]=s; };
    if(op=="default") born(new V(),1);
    else if(op=="ctor") born(new V(I(2)),1);
    else if(op=="ctorbs") born(new V(I(2),I(3)),0);
    else if(op=="copyctor") born(new V(*o[I(2)]),st[I(2)]);
    else if(op=="movector"){ born(new V(std::move(*o[I(2)])),st[I(2)]); st[I(2)]=2; }
    else if(op=="assign"){ *o[k]=*o[I(2)]; st[k]=st[I(2)]; }
    else if(op=="moveassign"){ *o[k]=std::move(*o[I(2)]); st[k]=st[I(2)]; st[I(2)]=2; }
    else if(op=="swap"){ if(k%2) o[k]->swap(*o[I(2)]); else swap(*o[k],*o[I(2)]); std::swap(st[k],st[I(2)]); }
    else if(op=="destroy") o[k].reset();
    else if(op=="resize"){ o[k]->resize(I(2)); st[k]=1; }
    else if(op=="resizebs"){ o[k]->resize(I(2),I(3)); st[k]=0; }
    else if(op=="create"){ long n=0; for(auto c=o[k]->createbegin();c!=o[k]->createend();++c,++n){ if(long(c.index())!=n) extra="\"index\""; if(n%2) *c=I(2+n); else c.setblocksize(I(2+n)); } st[k]=0; }
    else if(op=="write") Blk<B>::set((*o[k])[I(2)][I(3)],I(4));
    else if(op=="fill") *o[k]=double(I(2));
    else if(op=="scale") *o[k]*=double(I(2));
    else if(op=="div") *o[k]/=0.5;
    else if(op=="add") *o[k]+=*o[I(2)];
    else if(op=="sub") *o[k]-=*o[I(2)];
    else if(op=="axpy") o[k]->axpy(double(I(3)),*o[I(2)]);
    else if(op=="dot"){ double d=o[k]->dot(*o[I(2)]), e=(*o[k])*(*o[I(2)]); extra=js((long)(d/w)); if(d!=e) extra+=",\"dot\""; }
    else if(op=="norms"){ norms(*o[k],extra,w); }
    else if(op=="bfill") (*o[k])[I(2)]=double(I(3));
    else if(op=="bscale") (*o[k])[I(2)]*=double(I(3));
    else if(op=="bassign"){ const V& y=*o[I(2)]; (*o[k])[I(3)]=y[I(4)]; }
    else if(op=="badd"){ const V& y=*o[I(2)]; (*o[k])[I(3)]+=y[I(4)]; }
    else if(op=="bvconv"){ const V& y=*o[I(2)]; BlockVector<B> b(y[I(4)]); auto& x=(*o[k])[I(3)]; if(b.size()!=y[I(4)].size()) extra="\"conv\""; if(x.size()!=b.size()) DUNE_THROW(ISTLError,"size"); x=0.0; x+=b; }
    else throw std::logic_error("op "+op); }
};
int main(int argc,char** argv){
  std::ifstream f(argv[2]); long from=argc>3?std::stol(argv[3]):0; std::string b=argv[1];
  if(b=="bv-double"){ BV<double> r; return vt::replayMain(r,f,from); }
  if(b=="bv-f2"){ BV<FieldVector<double,2>> r; return vt::replayMain(r,f,from); }
  if(b=="bv-bv"){ BV<BlockVector<double>> r; return vt::replayMain(r,f,from); }
  if(b=="vbv-double"){ VBV<double> r; return vt::replayMain(r,f,from); }
  if(b=="vbv-f2"){ VBV<FieldVector<double,2>> r; return vt::replayMain(r,f,from); }
  return 3; }
