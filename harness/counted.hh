// A Jacobi smoother that writes down the calls it gets: 1 pre, 2 apply, 3 post.
#pragma once
#include <vector>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/paamg/smoother.hh>
namespace vt { inline std::vector<std::vector<int>> smootherLog;
template<class M,class X,class Y> struct Counted : Dune::SeqJac<M,X,Y> { using Base=Dune::SeqJac<M,X,Y>; std::size_t id;
  Counted(const M& A,int n,typename X::field_type w):Base(A,n,w),id(smootherLog.size()){ smootherLog.push_back({}); }
  void note(int k){ auto& l=smootherLog[id]; if(k!=2||l.empty()||l.back()!=2) l.push_back(k); }   // repeated applications once
  void pre(X& x,Y& b) override { note(1); Base::pre(x,b); }
  void apply(X& v,const Y& d) override { note(2); Base::apply(v,d); }
  void post(X& x) override { note(3); Base::post(x); } }; }
namespace Dune::Amg {
template<class M,class X,class Y> struct ConstructionTraits<vt::Counted<M,X,Y>> { typedef DefaultConstructionArgs<vt::Counted<M,X,Y>> Arguments;
  static std::shared_ptr<vt::Counted<M,X,Y>> construct(Arguments& a){ return std::make_shared<vt::Counted<M,X,Y>>(a.getMatrix(),a.getArgs().iterations,a.getArgs().relaxationFactor); } }; }
