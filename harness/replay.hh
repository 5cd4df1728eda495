// Generic script reader for replayed behaviours.
#pragma once
#include "fp.hh"
#include <fstream>
#include <iostream>
#include <sstream>
#include <dune/common/exceptions.hh>
#ifdef __SANITIZE_ADDRESS__
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
#endif
namespace vt {
using Toks=std::vector<std::string>;
inline long allocatedBytes(){
#ifdef __SANITIZE_ADDRESS__
  return long(__sanitizer_get_current_allocated_bytes());
#else
  return 0;
#endif
}
// Where the objects are counted (R::counted) the memory in use after a behaviour, when every object is gone, is compared with
// that before it; as a first use may fill caches for good, only what remains again after a second run is reported ("L bytes").
template<class R> int replayMain(R& run,std::istream& in,long from){
  std::string line, text; line.reserve(1<<16); text.reserve(1<<18); long id=-1, base=0; int K=1; bool skip=true;
  auto toks=[](const std::string& l){ std::istringstream ls(l); Toks t; std::string w; while(ls>>w) t.push_back(w); return t; };
  auto name=[&](Dune::Exception& e)->std::string { if constexpr(requires { run.name(e); }) return run.name(e); else return "err"; };
  auto finish=[&]{ if constexpr(requires { R::counted; }) if(!skip && text.size()<text.capacity()){ run.reset(0); run.extra=std::string(); long left=allocatedBytes()-base;
      if(left){ base=allocatedBytes(); { run.reset(K); std::istringstream all(text); std::string l; while(std::getline(all,l)){ try{ run.step(toks(l)); } catch(Dune::Exception&){} } run.reset(0); run.extra=std::string(); }
        left=allocatedBytes()-base; if(left) std::cout<<"L "<<left<<"\n"; } } };
  while(std::getline(in,line)){
    bool show=false; if(!line.empty() && line[0]=='!'){ show=true; line.erase(0,1); }
    if(line.empty()) continue;
    if(line[0]=='B'&&line[1]==' '){ finish(); text.clear(); Toks t=toks(line); id=std::stol(t[1]); K=std::stoi(t[2]); t=Toks(); skip=id<from; if(!skip){ std::cout<<"B "<<id<<"\n"<<std::flush; if constexpr(requires { R::counted; }){ run.reset(K); run.reset(0); t.shrink_to_fit(); base=allocatedBytes(); } run.reset(K);} continue; }
    Toks t=toks(line); if(t.empty()) continue;
    if(skip) continue;
    if constexpr(requires { R::counted; }) if(text.size()+line.size()+1<text.capacity()){ text+=line; text+='\n'; }
    std::string out="ok"; run.extra="";
    try{ run.step(t); } catch(Dune::Exception& e){ out=name(e); }
    if(show){ std::cout<<"{\"out\":\""<<out<<"\",\"extra\":["<<run.extra<<"],\"obs\":["; for(int k=1;k<=K;++k) std::cout<<(k>1?",":"")<<run.obs(k); std::cout<<"]}\n"; }
  }
  finish(); run.reset(0); std::cout<<"END"<<std::endl; return 0; }
}
