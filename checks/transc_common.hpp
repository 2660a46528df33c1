// Oracle for the elementary functions: exactly rounded values (MPFR brackets) on every number of a domain.
#pragma once
#define MINI_TRANSC
#include "../harness/mpfrx.hpp"
#include "arith_common.hpp"

template<class T> struct TDom : Dom<T> {
  std::vector<ex::XR> fv[ex::F_COUNT]; std::vector<T> flo[ex::F_COUNT], fhi[ex::F_COUNT];
  TDom(int level, const std::vector<int>& fns) : Dom<T>(level, false) { init(fns); }
  TDom(const std::vector<T>& v, const std::vector<int>& fns) : Dom<T>(v, false) { init(fns); }
  void init(const std::vector<int>& fns) {
    for (int f : fns) for (int i = 0; i < this->n; i++) {
      ex::XR r = ex::fx(f, this->x[i]);
      fv[f].push_back(r); flo[f].push_back(r.nan ? T(0) : ex::rnd<T>(r, ex::DOWN)); fhi[f].push_back(r.nan ? T(0) : ex::rnd<T>(r, ex::UP));
    }
  }
};
template<class T> inline T pi_round(long num, long den, ex::Dir d) { mpq_class q = ex::pi_q().first * num / den; return ex::rnd<T>(ex::XR(q), d); }

// A user rounding policy with correctly rounded elementary functions for the hardware types.
template<class T> inline T mp_call(int f, const T& x, ex::Dir d) {
  ex::XR r = ex::fx(f, ex::Num<T>::exact(x));
  if (r.nan) return std::numeric_limits<T>::quiet_NaN();
  return ex::rnd<T>(r, d);
}
template<class T, class Rounding> struct transc_mpfr : Rounding {
#define TM(f, F) T f##_down(const T& x) { return mp_call(ex::F, x, ex::DOWN); } T f##_up(const T& x) { return mp_call(ex::F, x, ex::UP); }
  TM(exp, F_EXP) TM(log, F_LOG) TM(sin, F_SIN) TM(cos, F_COS) TM(tan, F_TAN) TM(asin, F_ASIN) TM(acos, F_ACOS) TM(atan, F_ATAN)
  TM(sinh, F_SINH) TM(cosh, F_COSH) TM(tanh, F_TANH) TM(asinh, F_ASINH) TM(acosh, F_ACOSH) TM(atanh, F_ATANH)
#undef TM
};
// k steps of the format away from a number
template<class T> inline T steps(T a, int k) { T to = k > 0 ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity(); for (int i = 0; i < std::abs(k); i++) { using std::nextafter; a = nextafter(a, to); } return a; }
template<int E, int M, class H> inline mini<E, M, H> steps(mini<E, M, H> a, int) { return a; }
