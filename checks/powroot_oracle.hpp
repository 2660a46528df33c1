// Exact-for-rounding integer powers and roots (MPFR at 400 bits, moved off the truncated value when inexact).
#pragma once
#include "../harness/mpfrx.hpp"
#include "arith_oracle.hpp"
#include <climits>
namespace ex {
inline XR from_mpfr_trunc(mpfr_t r, int ternary) {   // r = true value rounded down in magnitude; ternary != 0 when inexact
  if (mpfr_inf_p(r)) return mpfr_sgn(r) > 0 ? XR::pinf() : XR::minf();
  if (mpfr_zero_p(r)) return XR(0L);
  long e = mpfr_get_exp(r);
  int s = mpfr_sgn(r);
  if (e > 40000) return XR(mpq_class(s * pow2(40000)));     // far beyond every explored format
  if (e < -40000) return XR(mpq_class(s * pow2(-40000)));
  mpz_class m; long k = mpfr_get_z_2exp(m.get_mpz_t(), r);
  mpq_class q(m); if (ternary) q += mpq_class(s, 2);
  return XR(mpq_class(q * pow2(k)));
}
inline XR powx(const XR& x, unsigned long k) {       // x^k, k >= 1
  if (x.nan) return x;
  if (x.inf) { XR r; r.inf = (x.inf < 0 && (k & 1)) ? -1 : 1; return r; }
  if (sgn(x.q) == 0) return XR(0L);
  mpfr_set_emin(mpfr_get_emin_min()); mpfr_set_emax(mpfr_get_emax_max());
  mpfr_t a, r; mpfr_init2(a, 200); mpfr_init2(r, 400);
  if (mpfr_set_q(a, x.q.get_mpq_t(), MPFR_RNDN)) abort();
  int t = mpfr_pow_ui(r, a, k, MPFR_RNDZ);
  XR v = from_mpfr_trunc(r, t);
  mpfr_clear(a); mpfr_clear(r);
  return v;
}
inline XR rootx(const XR& x, unsigned long k) {      // real k-th root (x >= 0, or k odd)
  if (x.nan || x.inf || sgn(x.q) == 0) return x;
  mpfr_set_emin(mpfr_get_emin_min()); mpfr_set_emax(mpfr_get_emax_max());
  mpfr_t a, r; mpfr_init2(a, 200); mpfr_init2(r, 400);
  if (mpfr_set_q(a, x.q.get_mpq_t(), MPFR_RNDN)) abort();
  int t = mpfr_rootn_ui(r, a, k, MPFR_RNDZ);
  XR v = from_mpfr_trunc(r, t);
  mpfr_clear(a); mpfr_clear(r);
  return v;
}
inline XR inv(const XR& a) { if (a.inf) return XR(0L); return XR(mpq_class(1 / a.q)); }
}
