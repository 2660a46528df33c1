// Exact-for-rounding values of transcendental functions, through MPFR (oracle side).
#pragma once
#include "exact.hpp"
#include <mpfr.h>

namespace ex {

enum Fn { F_EXP, F_LOG, F_SIN, F_COS, F_TAN, F_ASIN, F_ACOS, F_ATAN, F_SINH, F_COSH, F_TANH, F_ASINH, F_ACOSH, F_ATANH, F_COUNT };
inline const char* fn_name(int f) {
  static const char* n[] = {"exp","log","sin","cos","tan","asin","acos","atan","sinh","cosh","tanh","asinh","acosh","atanh"};
  return n[f];
}

// Returns a rational that rounds, in every direction and into every format of at most 64 bits, exactly like f(x).
// (The value at 400 bits, moved off it by half an ulp towards the true value when inexact.)
inline XR fx(int fn, const XR& x) {
  if (x.nan) return XR::no();
  mpfr_set_emin(mpfr_get_emin_min()); mpfr_set_emax(mpfr_get_emax_max());
  const int P = 400;
  static int (*const tab[])(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t) = {mpfr_exp, mpfr_log, mpfr_sin, mpfr_cos, mpfr_tan, mpfr_asin, mpfr_acos,
    mpfr_atan, mpfr_sinh, mpfr_cosh, mpfr_tanh, mpfr_asinh, mpfr_acosh, mpfr_atanh};
  mpfr_t a, r; mpfr_init2(a, 200); mpfr_init2(r, P);
  XR res;
  // beyond these the result over/underflows every format explored; keep MPFR away from astronomically large results
  if (x.finite() && (fn == F_EXP || fn == F_SINH || fn == F_COSH) && abs(x.q) > mpq_class(1000000)) {
    bool neg = sgn(x.q) < 0;
    if (fn == F_EXP) res = neg ? XR(pow2(-60000)) : XR(pow2(60000));
    else if (fn == F_COSH) res = XR(pow2(60000));
    else res = neg ? XR(mpq_class(-pow2(60000))) : XR(pow2(60000));
    mpfr_clear(a); mpfr_clear(r);
    return res;
  }
  int t0 = 0;
  if (x.inf) mpfr_set_inf(a, x.inf);
  else t0 = mpfr_set_q(a, x.q.get_mpq_t(), MPFR_RNDN);
  if (t0 != 0) { fprintf(stderr, "fx: argument not exact\n"); abort(); }
  if (fn == F_TANH && x.finite() && abs(x.q) > 200) {  // 1 - 2^-500-ish
    mpq_class v = 1 - pow2(-500); res = XR(sgn(x.q) < 0 ? mpq_class(-v) : v);
    mpfr_clear(a); mpfr_clear(r); return res;
  }
  int t = tab[fn](r, a, MPFR_RNDD);
  if (mpfr_nan_p(r)) res = XR::no();
  else if (mpfr_inf_p(r)) res = mpfr_sgn(r) > 0 ? XR::pinf() : XR::minf();
  else if (mpfr_zero_p(r)) res = XR(0L);
  else {
    mpz_class m; long e = mpfr_get_z_2exp(m.get_mpz_t(), r);
    mpq_class q(m);
    if (t != 0) { q = m; q += mpq_class(1, 2); }   // true value in (r, r+ulp)
    if (e >= 0) mpz_mul_2exp(q.get_num_mpz_t(), q.get_num_mpz_t(), e); else mpz_mul_2exp(q.get_den_mpz_t(), q.get_den_mpz_t(), -e);
    q.canonicalize();
    res = XR(q);
  }
  mpfr_clear(a); mpfr_clear(r);
  return res;
}

// rational bracket of pi: p.first < pi < p.second, 2^-4000 apart
inline const std::pair<mpq_class, mpq_class>& pi_q() {
  static std::pair<mpq_class, mpq_class> r;
  static bool init = false;
  if (!init) {
    mpfr_t p; mpfr_init2(p, 20000); mpfr_const_pi(p, MPFR_RNDD);
    mpz_class m; long e = mpfr_get_z_2exp(m.get_mpz_t(), p);
    r.first = mpq_class(m) * pow2(e); r.second = mpq_class(m + 1) * pow2(e);
    mpfr_clear(p); init = true;
  }
  return r;
}
// floor(x/pi * num/den) for rational x (exact unless x is within 2^-17000 of a multiple, which no number explored is)
inline mpz_class floor_over_pi(const mpq_class& x, long num, long den) {
  mpq_class a = x * num / den, lo = a / pi_q().second, hi = a / pi_q().first;
  if (sgn(a) < 0) std::swap(lo, hi);
  mpz_class fl, fh;
  mpz_fdiv_q(fl.get_mpz_t(), lo.get_num_mpz_t(), lo.get_den_mpz_t());
  mpz_fdiv_q(fh.get_mpz_t(), hi.get_num_mpz_t(), hi.get_den_mpz_t());
  if (fl != fh) { fprintf(stderr, "floor_over_pi: ambiguous\n"); abort(); }
  return fl;
}

}  // namespace ex
