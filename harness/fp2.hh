// GF(P^2)=GF(P)[i]: exact "complex" arithmetic, conj is the Frobenius automorphism.
#pragma once
#include "fp.hh"
namespace vt {
struct Fp2 { Fp re,im;
  constexpr Fp2()=default;
  template<class T, std::enable_if_t<std::is_arithmetic_v<T>,int> = 0> constexpr Fp2(T x):re(x),im(0){}
  Fp2(Fp a,Fp b):re(a),im(b){}
  Fp2& operator+=(Fp2 o){ re+=o.re; im+=o.im; return *this; }
  Fp2& operator-=(Fp2 o){ re-=o.re; im-=o.im; return *this; }
  Fp2& operator*=(Fp2 o){ Fp a=re*o.re-im*o.im, b=re*o.im+im*o.re; re=a; im=b; return *this; }
  Fp2& operator/=(Fp2 o){ Fp n=o.re*o.re+o.im*o.im; Fp w=Fp::inv(n); return *this*=Fp2(o.re*w,-o.im*w); }
  friend Fp2 operator+(Fp2 a,Fp2 b){ return a+=b; } friend Fp2 operator-(Fp2 a,Fp2 b){ return a-=b; }
  friend Fp2 operator*(Fp2 a,Fp2 b){ return a*=b; } friend Fp2 operator/(Fp2 a,Fp2 b){ return a/=b; }
  friend Fp2 operator-(Fp2 a){ return Fp2(-a.re,-a.im); }
  friend bool operator==(Fp2 a,Fp2 b){ return a.re==b.re&&a.im==b.im; } friend bool operator!=(Fp2 a,Fp2 b){ return !(a==b); }
#define VT_MIX(op) \
  template<class T, std::enable_if_t<std::is_arithmetic_v<T>,int> = 0> friend Fp2 operator op(Fp2 a,T b){ return a op Fp2(b); } \
  template<class T, std::enable_if_t<std::is_arithmetic_v<T>,int> = 0> friend Fp2 operator op(T a,Fp2 b){ return Fp2(a) op b; }
  VT_MIX(+) VT_MIX(-) VT_MIX(*) VT_MIX(/)
#undef VT_MIX
  template<class T, std::enable_if_t<std::is_arithmetic_v<T>,int> = 0> friend bool operator==(Fp2 a,T b){ return a==Fp2(b); }
  template<class T, std::enable_if_t<std::is_arithmetic_v<T>,int> = 0> friend bool operator!=(Fp2 a,T b){ return !(a==Fp2(b)); }
  operator double() const { return im.v? 1.0+re.v+im.v : double(re.v); }   // norms only
  friend std::ostream& operator<<(std::ostream& o,Fp2 a){ return o<<a.re.v<<"+"<<a.im.v<<"i"; }
  std::string json() const { return "["+std::to_string(re.v)+","+std::to_string(im.v)+"]"; } };
inline double abs(Fp2 a){ return double(a); }
inline double abs2(Fp2 a){ return abs(a)*abs(a); }
inline Fp2 conj(Fp2 a){ return Fp2(a.re,-a.im); }
inline double real(Fp2 a){ return a.re.v; }
inline double imag(Fp2 a){ return a.im.v; }
inline bool isNaN(Fp2){ return false; }
inline bool isfinite(Fp2){ return true; }
}
namespace Dune {
template<> struct FieldTraits<vt::Fp2> { using field_type=vt::Fp2; using real_type=double; };
template<> struct IsNumber<vt::Fp2> : std::true_type {};
}
