// xfloat: a number of float precision whose operations leave a double in the "register", as on processors with extended registers;
// only force_rounding brings a result to the precision of the type.  A user base type for the library; hardware rounding mode.
#pragma once
#include "exact.hpp"
#include <ostream>
#include <type_traits>
struct xfloat {
  double d;
  xfloat() : d(0) {}
  template<class U, class = typename std::enable_if<std::is_arithmetic<U>::value>::type> xfloat(U v) : d((double)v) {}
  static xfloat mk(double v) { xfloat r; r.d = v; return r; }
  static double wash(double v) { volatile double w = v; return w; }
#define XF_OP(o) friend xfloat operator o(const xfloat& a, const xfloat& b) { volatile double x = a.d, y = b.d; volatile double r = x o y; return mk(r); } \
  xfloat& operator o##=(const xfloat& b) { return *this = *this o b; }
  XF_OP(+) XF_OP(-) XF_OP(*) XF_OP(/)
#undef XF_OP
  friend xfloat operator-(const xfloat& a) { return mk(-a.d); }
  friend xfloat operator+(const xfloat& a) { return a; }
#define XF_CMP(o) friend bool operator o(const xfloat& a, const xfloat& b) { return a.d o b.d; }
  XF_CMP(<) XF_CMP(>) XF_CMP(<=) XF_CMP(>=) XF_CMP(==) XF_CMP(!=)
#undef XF_CMP
  friend xfloat sqrt(const xfloat& a) { return mk(wash(std::sqrt(wash(a.d)))); }
  friend xfloat floor(const xfloat& a) { return mk(std::floor(a.d)); }
  friend xfloat ceil(const xfloat& a) { return mk(std::ceil(a.d)); }
  friend xfloat rint(const xfloat& a) { return mk(std::rint(a.d)); }
  friend xfloat nextafter(const xfloat& a, const xfloat& b) { return mk(std::nextafter((float)a.d, (float)b.d)); }
  friend xfloat abs(const xfloat& a) { return mk(std::fabs(a.d)); }
  template<class C> friend std::basic_ostream<C>& operator<<(std::basic_ostream<C>& o, const xfloat& a) { return o << a.d; }
};
namespace std {
template<> class numeric_limits<xfloat> : public numeric_limits<float> {
  typedef numeric_limits<float> L;
public:
  static xfloat infinity() { return xfloat(L::infinity()); }
  static xfloat quiet_NaN() { return xfloat(L::quiet_NaN()); }
  static xfloat signaling_NaN() { return xfloat(L::signaling_NaN()); }
  static xfloat max() { return xfloat(L::max()); }
  static xfloat lowest() { return xfloat(L::lowest()); }
  static xfloat min() { return xfloat(L::min()); }
  static xfloat denorm_min() { return xfloat(L::denorm_min()); }
  static xfloat epsilon() { return xfloat(L::epsilon()); }
  static xfloat round_error() { return xfloat(L::round_error()); }
};
}
namespace ex {
template<> struct Num<xfloat> {
  static Fmt fmt() { return Num<float>::fmt(); }
  static xfloat make(const Rnd& r) { return xfloat(Num<float>::make(r)); }
  static XR exact(const xfloat& v) { return Num<double>::exact(v.d); }
  static std::string str(const xfloat& v) { return Num<double>::str(v.d); }
};
}
#include <cfenv>
#include <boost/numeric/interval/rounding.hpp>
#include <boost/numeric/interval/rounded_arith.hpp>
namespace boost { namespace numeric { namespace interval_lib {
template<> struct rounding_control<xfloat> {
  typedef int rounding_mode;
  static void get_rounding_mode(rounding_mode& m) { m = std::fegetround(); }
  static void set_rounding_mode(rounding_mode m) { std::fesetround(m); }
  static void downward() { std::fesetround(FE_DOWNWARD); }
  static void upward() { std::fesetround(FE_UPWARD); }
  static void to_nearest() { std::fesetround(FE_TONEAREST); }
  static void toward_zero() { std::fesetround(FE_TOWARDZERO); }
  static xfloat to_int(const xfloat& x) { return xfloat::mk(std::rint(xfloat::wash(x.d))); }
  static xfloat force_rounding(const xfloat& x) { volatile double a = x.d; volatile float f = (float)a; return xfloat::mk(f); }
};
template<> struct rounded_math<xfloat> : save_state<rounded_arith_opp<xfloat> > {};
}}}
