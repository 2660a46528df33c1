// Fault injection: a hook that throws at the k-th operation of the base type (or action of the checking policy),
// and a user-defined number type over double (real hardware rounding) with the same hook.
#pragma once
#include "dom.hpp"
enum { PT_POLICY = 6 };
struct Injected { long id; int kind; };
struct FaultHook {
  static long& count() { static thread_local long n = 0; return n; }
  static long& target() { static thread_local long n = -1; return n; }      // -1: disarmed, 0: count only
  static void pt(int kind) {
    if (target() < 0 || kind == PT_MODE) return;
    if (++count() == target()) { long id = count(); target() = -1; throw Injected{id, kind}; }
  }
  static void arm(long k) { count() = 0; target() = k; }
  static long disarm() { target() = -1; return count(); }
};
// a checking policy whose every action is an injection point
template<class T, class C> struct checking_points : C {
  static T pos_inf() { FaultHook::pt(PT_POLICY); return C::pos_inf(); }
  static T neg_inf() { FaultHook::pt(PT_POLICY); return C::neg_inf(); }
  static T nan() { FaultHook::pt(PT_POLICY); return C::nan(); }
  static bool is_nan(const T& x) { FaultHook::pt(PT_POLICY); return C::is_nan(x); }
  static T empty_lower() { FaultHook::pt(PT_POLICY); return C::empty_lower(); }
  static T empty_upper() { FaultHook::pt(PT_POLICY); return C::empty_upper(); }
  static bool is_empty(const T& l, const T& u) { FaultHook::pt(PT_POLICY); return C::is_empty(l, u); }
};
// number type over double
struct thr {
  double d;
  thr() : d(0) {}
  thr(const thr& o) : d((FaultHook::pt(PT_COPY), o.d)) {}
  thr& operator=(const thr& o) { FaultHook::pt(PT_COPY); d = o.d; return *this; }
  template<class U, class = typename std::enable_if<std::is_arithmetic<U>::value>::type> thr(U v) : d((FaultHook::pt(PT_CONV), (double)v)) {}
  static thr raw(double v) { thr r; r.d = v; return r; }
#define THR_OP(o) friend thr operator o(const thr& a, const thr& b) { FaultHook::pt(PT_ARITH); return raw(a.d o b.d); } thr& operator o##=(const thr& b) { return *this = *this o b; }
  THR_OP(+) THR_OP(-) THR_OP(*) THR_OP(/)
  friend thr operator-(const thr& a) { FaultHook::pt(PT_ARITH); return raw(-a.d); }
  friend thr operator+(const thr& a) { return a; }
#define THR_CMP(o) friend bool operator o(const thr& a, const thr& b) { FaultHook::pt(PT_CMP); return a.d o b.d; }
  THR_CMP(<) THR_CMP(>) THR_CMP(<=) THR_CMP(>=) THR_CMP(==) THR_CMP(!=)
#define THR_F(f) friend thr f(const thr& a) { FaultHook::pt(PT_FUNC); return raw(std::f(a.d)); }
  THR_F(sqrt) THR_F(rint) THR_F(nearbyint) THR_F(floor) THR_F(ceil) THR_F(trunc) THR_F(exp) THR_F(log) THR_F(sin) THR_F(cos) THR_F(tan) THR_F(asin) THR_F(acos) THR_F(atan)
  THR_F(abs) THR_F(fabs) THR_F(sinh) THR_F(cosh) THR_F(tanh) THR_F(asinh) THR_F(acosh) THR_F(atanh)
#undef THR_OP
#undef THR_CMP
#undef THR_F
};
inline bool numeq(const thr& a, const thr& b) { return a.d == b.d; }
inline bool numlt(const thr& a, const thr& b) { return a.d < b.d; }
inline bool isnum(const thr& a) { return a.d == a.d; }
namespace std { template<> class numeric_limits<thr> : public numeric_limits<double> { typedef numeric_limits<double> L; public:
  static thr infinity() { return thr::raw(L::infinity()); } static thr quiet_NaN() { return thr::raw(L::quiet_NaN()); }
  static thr max() { return thr::raw(L::max()); } static thr min() { return thr::raw(L::min()); } static thr denorm_min() { return thr::raw(L::denorm_min()); } }; }
namespace ex { template<> struct Num<thr> { static XR exact(const thr& v) { return Num<double>::exact(v.d); } static std::string str(const thr& v) { return Num<double>::str(v.d); } static Fmt fmt() { return Num<double>::fmt(); } static thr make(const Rnd& r) { return thr::raw(Num<double>::make(r)); } }; }
template<> struct Alpha<thr> { static std::vector<thr> get(int l) { std::vector<thr> r; for (double d : Alpha<double>::get(l)) r.push_back(thr::raw(d)); return r; } };
namespace boost { namespace numeric { namespace interval_lib {
template<> struct rounding_control<thr> {
  typedef rounding_control<double> B; typedef B::rounding_mode rounding_mode;
  static void get_rounding_mode(rounding_mode& m) { B::get_rounding_mode(m); }
  static void set_rounding_mode(rounding_mode m) { B::set_rounding_mode(m); }
  static void downward() { B::downward(); }
  static void upward() { B::upward(); }
  static void to_nearest() { B::to_nearest(); }
  static void toward_zero() { B::toward_zero(); }
  static thr to_int(const thr& x) { return rint(x); }
  static thr force_rounding(const thr& x) { return x; }
};
}}}
