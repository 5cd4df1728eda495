// An allocator that insists on the contract: what is given back was handed out, with the same number of objects.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <map>
#include <new>
namespace vt { inline std::map<void*,std::size_t> handedOut;
template<class T> struct Strict { using value_type=T; using size_type=std::size_t; using difference_type=std::ptrdiff_t; Strict()=default; template<class U> Strict(const Strict<U>&){}
  T* allocate(std::size_t n){ T* p=static_cast<T*>(::operator new(n*sizeof(T),std::align_val_t(alignof(T)))); handedOut[p]=n*sizeof(T); return p; }
  void deallocate(T* p,std::size_t n){ auto i=handedOut.find(p); if(i==handedOut.end()||i->second!=n*sizeof(T)){ std::fprintf(stderr,"allocator: %p with %zu objects was not handed out like that\n",(void*)p,n); std::fflush(stdout); std::_Exit(77); } handedOut.erase(i); ::operator delete(p,std::align_val_t(alignof(T))); }
  template<class U> bool operator==(const Strict<U>&) const { return true; } template<class U> bool operator!=(const Strict<U>&) const { return false; } }; }
