// Exact arithmetic for conformance checking: the prime field GF(P) as a dune field type,
// plus small helpers (random generator, ND-JSON output).
#pragma once
#include <cstdint>
#include <iostream>
#include <string>
#include <sstream>
#include <vector>
#include <complex>
#include <type_traits>
#include <dune/common/ftraits.hh>
#include <dune/common/typetraits.hh>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
namespace vt {
constexpr std::int64_t P = 30011;
inline bool divzero = false;              // set when a division by zero happened
struct Fp {
  std::int32_t v = 0;
  constexpr Fp() = default;
  template<class T, std::enable_if_t<std::is_integral_v<T>,int> = 0>
  constexpr Fp(T x) : v(std::int32_t(((std::int64_t(x)%P)+P)%P)) {}
  template<class T, std::enable_if_t<std::is_floating_point_v<T>,int> = 0>
  constexpr Fp(T x) : v(std::int32_t(((std::int64_t(x)%P)+P)%P)) {}
  Fp& operator+=(Fp o){ v+=o.v; if(v>=P) v-=P; return *this; }
  Fp& operator-=(Fp o){ v-=o.v; if(v<0) v+=P; return *this; }
  Fp& operator*=(Fp o){ v=std::int32_t(std::int64_t(v)*o.v%P); return *this; }
  static Fp inv(Fp a){ if(a.v==0){ divzero=true; return Fp(0);} std::int64_t r=1,b=a.v,e=P-2; while(e){ if(e&1) r=r*b%P; b=b*b%P; e>>=1;} return Fp(r); }
  Fp& operator/=(Fp o){ return *this *= inv(o); }
  friend Fp operator+(Fp a,Fp b){ return a+=b; } friend Fp operator-(Fp a,Fp b){ return a-=b; }
  friend Fp operator*(Fp a,Fp b){ return a*=b; } friend Fp operator/(Fp a,Fp b){ return a/=b; }
  friend Fp operator-(Fp a){ return Fp(0)-a; }
  friend Fp operator+(Fp a){ return a; }
  friend bool operator==(Fp a,Fp b){ return a.v==b.v; } friend bool operator!=(Fp a,Fp b){ return a.v!=b.v; }
  friend bool operator<(Fp a,Fp b){ return a.v<b.v; } friend bool operator>(Fp a,Fp b){ return a.v>b.v; }
  friend bool operator<=(Fp a,Fp b){ return a.v<=b.v; } friend bool operator>=(Fp a,Fp b){ return a.v>=b.v; }
  operator double() const { return v; }      // representative (norms and pivot comparisons)
#define VT_MIX(op) \
  template<class T, std::enable_if_t<std::is_arithmetic_v<T>,int> = 0> friend Fp operator op(Fp a,T b){ return a op Fp(b); } \
  template<class T, std::enable_if_t<std::is_arithmetic_v<T>,int> = 0> friend Fp operator op(T a,Fp b){ return Fp(a) op b; }
  VT_MIX(+) VT_MIX(-) VT_MIX(*) VT_MIX(/)
#undef VT_MIX
#define VT_MIX(op) \
  template<class T, std::enable_if_t<std::is_arithmetic_v<T>,int> = 0> friend bool operator op(Fp a,T b){ return double(a.v) op double(b); } \
  template<class T, std::enable_if_t<std::is_arithmetic_v<T>,int> = 0> friend bool operator op(T a,Fp b){ return double(a) op double(b.v); }
  VT_MIX(<) VT_MIX(>) VT_MIX(<=) VT_MIX(>=) VT_MIX(==) VT_MIX(!=)
#undef VT_MIX
  friend std::ostream& operator<<(std::ostream& o,Fp a){ return o<<a.v; }
  friend std::istream& operator>>(std::istream& i,Fp& a){ std::int64_t x; i>>x; a=Fp(x); return i; }
};
// in GF(P) the "absolute value" used for pivoting is the representative
inline double abs(Fp a){ return a.v; }
inline double abs2(Fp a){ return double(a.v)*a.v; }
inline Fp conj(Fp a){ return a; }
inline double real(Fp a){ return a.v; }
inline double imag(Fp){ return 0; }
inline bool isNaN(Fp){ return false; }
inline bool isfinite(Fp){ return true; }

// ---- deterministic random numbers
struct Rng { std::uint64_t s; explicit Rng(std::uint64_t seed):s(seed*0x9E3779B97F4A7C15ull+0x1234567){ for(int i=0;i<4;i++) next(); }
  std::uint64_t next(){ s^=s<<13; s^=s>>7; s^=s<<17; return s*0x2545F4914F6CDD1Dull; }
  std::int64_t below(std::int64_t n){ return n<=0?0:std::int64_t((next()>>11)%std::uint64_t(n)); }
  std::int64_t in(std::int64_t a,std::int64_t b){ return a+below(b-a+1); }
  bool chance(int pct){ return below(100)<pct; } };

// ---- JSON
template<class T> std::string js(const T& x);
inline std::string q(const std::string& s){ std::string r="\""; for(char c:s){ if(c=='"'||c=='\\') r+='\\'; if(c=='\n'){ r+="\\n"; continue; } r+=c; } return r+"\""; }
inline std::string js(const Fp& x){ return std::to_string(x.v); }
template<class T> std::string jsv(const std::vector<T>& v){ std::string r="["; for(std::size_t i=0;i<v.size();++i){ if(i) r+=","; r+=js(v[i]); } return r+"]"; }
template<class T> struct IsVec : std::false_type {}; template<class T> struct IsVec<std::vector<T>> : std::true_type {};
template<class T> std::string js(const T& x){
  if constexpr (std::is_same_v<T,bool>) return x?"true":"false";
  else if constexpr (std::is_integral_v<T>) return std::to_string(x);
  else if constexpr (std::is_convertible_v<T,std::string>) return q(x);
  else if constexpr (IsVec<T>::value) return jsv(x);
  else return x.json();
}
struct Obj { std::ostringstream o; bool first=true;
  Obj(){ o<<"{"; }
  template<class T> Obj& f(const char* k,const T& v){ if(!first) o<<","; first=false; o<<"\""<<k<<"\":"<<js(v); return *this; }
  Obj& raw(const char* k,const std::string& v){ if(!first) o<<","; first=false; o<<"\""<<k<<"\":"<<v; return *this; }
  std::string str() const { return o.str()+"}"; } };
}
namespace Dune {
template<> struct FieldTraits<vt::Fp> { using field_type=vt::Fp; using real_type=double; };
template<> struct IsNumber<vt::Fp> : std::true_type {};
}
namespace std { template<> struct numeric_limits<vt::Fp> { static constexpr bool is_specialized=true; static constexpr bool is_signed=true; static constexpr bool is_integer=true; static constexpr bool has_quiet_NaN=false; static constexpr bool is_iec559=false;
  static vt::Fp epsilon(){return vt::Fp(0);} static vt::Fp min(){return vt::Fp(0);} static vt::Fp max(){return vt::Fp(vt::P-1);} }; }
