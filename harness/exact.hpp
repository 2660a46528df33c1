// Exact extended-real arithmetic (GMP rationals + infinities) and exact directed rounding into a binary format.
// This is the oracle side: nothing here uses the library under test nor floating-point arithmetic.
#pragma once
#include <gmpxx.h>
#include <string>
#include <vector>
#include <limits>
#include <cmath>
#include <cstdio>
#include <cstdint>

namespace ex {

struct XR {            // -inf, +inf, or a rational; nan marks "no value"
  int inf = 0; bool nan = false; mpq_class q;
  XR() {}
  XR(const mpq_class& v) : q(v) {}
  XR(long v) : q(v) {}
  static XR pinf() { XR r; r.inf = 1; return r; }
  static XR minf() { XR r; r.inf = -1; return r; }
  static XR no() { XR r; r.nan = true; return r; }
  int sign() const { return inf ? inf : sgn(q); }
  bool finite() const { return !inf && !nan; }
  XR operator-() const { XR r = *this; r.inf = -inf; r.q = -q; return r; }
};
inline int cmp(const XR& a, const XR& b) {
  if (a.inf || b.inf) return a.inf < b.inf ? -1 : a.inf > b.inf ? 1 : 0;
  return a.q < b.q ? -1 : a.q > b.q ? 1 : 0;
}
inline bool operator<(const XR& a, const XR& b) { return cmp(a, b) < 0; }
inline bool operator<=(const XR& a, const XR& b) { return cmp(a, b) <= 0; }
inline bool operator==(const XR& a, const XR& b) { return cmp(a, b) == 0; }
inline XR add(const XR& a, const XR& b) {
  if (a.nan || b.nan) return XR::no();
  if (a.inf || b.inf) { if (a.inf && b.inf && a.inf != b.inf) return XR::no(); XR r; r.inf = a.inf ? a.inf : b.inf; return r; }
  return XR(mpq_class(a.q + b.q));
}
inline XR sub(const XR& a, const XR& b) { return add(a, -b); }
inline XR mul(const XR& a, const XR& b) {  // 0 * inf = 0 : the value of a product of interval end points
  if (a.nan || b.nan) return XR::no();
  int s = a.sign() * b.sign();
  if (s == 0) return XR(0L);
  if (a.inf || b.inf) { XR r; r.inf = s; return r; }
  return XR(mpq_class(a.q * b.q));
}
inline XR div(const XR& a, const XR& b) {  // x/inf = 0, x/0 and inf/inf have no value
  if (a.nan || b.nan) return XR::no();
  if (b.inf) { if (a.inf) return XR::no(); return XR(0L); }
  if (sgn(b.q) == 0) return XR::no();
  if (a.inf) { XR r; r.inf = a.inf * sgn(b.q); return r; }
  return XR(mpq_class(a.q / b.q));
}
inline XR xmin(const XR& a, const XR& b) { return a.nan ? b : b.nan ? a : (b < a ? b : a); }
inline XR xmax(const XR& a, const XR& b) { return a.nan ? b : b.nan ? a : (a < b ? b : a); }
inline XR xabs(const XR& a) { return a.sign() < 0 ? -a : a; }
inline mpq_class pow2(long e) {
  mpq_class r(1);
  if (e >= 0) mpz_mul_2exp(r.get_num_mpz_t(), r.get_num_mpz_t(), e); else mpz_mul_2exp(r.get_den_mpz_t(), r.get_den_mpz_t(), -e);
  return r;
}
inline mpq_class ipow(const mpq_class& b, unsigned long k) {
  mpq_class r; mpz_pow_ui(r.get_num_mpz_t(), b.get_num_mpz_t(), k); mpz_pow_ui(r.get_den_mpz_t(), b.get_den_mpz_t(), k); return r;
}
inline XR xpow(const XR& a, unsigned long k) {  // k >= 0
  if (k == 0) return XR(1L);
  if (a.inf) { XR r; r.inf = (a.inf < 0 && (k & 1)) ? -1 : 1; return r; }
  return XR(ipow(a.q, k));
}

// binary format: p significant bits, smallest positive number 2^lsb, every finite number below 2^emax
struct Fmt { long p, lsb, emax; };
enum Dir { NEAR = 0, DOWN = 1, UP = 2, ZERO = 3 };

inline long ilog2(const mpq_class& a) {  // floor(log2(a)), a > 0
  long e = (long)mpz_sizeinbase(a.get_num_mpz_t(), 2) - (long)mpz_sizeinbase(a.get_den_mpz_t(), 2);
  // 2^(e-1) < a < 2^(e+1)
  if (a < pow2(e)) e--;
  return e;
}
// a rounded result: sign, mantissa m and exponent e (value m*2^e), or infinity
struct Rnd { bool neg = false; bool inf = false; mpz_class m; long e = 0; };
inline Rnd round_to(const Fmt& f, const XR& x, Dir d) {
  Rnd r;
  r.neg = x.sign() < 0;
  if (x.inf) { r.inf = true; return r; }
  if (sgn(x.q) == 0) { r.m = 0; r.e = f.lsb; return r; }
  mpq_class a = abs(x.q);
  long e = ilog2(a) - f.p + 1; if (e < f.lsb) e = f.lsb;
  mpq_class s = a; // a / 2^e
  if (e >= 0) { mpz_mul_2exp(s.get_den_mpz_t(), s.get_den_mpz_t(), e); } else { mpz_mul_2exp(s.get_num_mpz_t(), s.get_num_mpz_t(), -e); }
  s.canonicalize();
  mpz_class fl, rem; mpz_fdiv_qr(fl.get_mpz_t(), rem.get_mpz_t(), s.get_num_mpz_t(), s.get_den_mpz_t());
  bool inexact = sgn(rem) != 0;
  bool inc = false;
  if (inexact) {
    Dir dd = d;
    if (d == NEAR) { mpz_class t = rem * 2; int c = ::cmp(t, s.get_den()); inc = c > 0 || (c == 0 && mpz_odd_p(fl.get_mpz_t())); }
    else if (dd == DOWN) inc = r.neg;
    else if (dd == UP) inc = !r.neg;
  }
  if (inc) fl += 1;
  if (mpz_sizeinbase(fl.get_mpz_t(), 2) > (size_t)f.p) { fl /= 2; e++; }  // only when fl == 2^p
  if (sgn(fl) != 0 && (long)mpz_sizeinbase(fl.get_mpz_t(), 2) + e > f.emax) {  // overflow
    bool toinf = d == NEAR || (d == DOWN && r.neg) || (d == UP && !r.neg);
    if (toinf) { r.inf = true; return r; }
    fl = (mpz_class(1) << f.p) - 1; e = f.emax - f.p;
  }
  r.m = fl; r.e = e;
  return r;
}

template<class T> struct Num;   // fmt(), make(Rnd), exact(T), str(T)

template<class T> struct HwNum {
  static Fmt fmt() {
    return Fmt{std::numeric_limits<T>::digits, std::numeric_limits<T>::min_exponent - std::numeric_limits<T>::digits,
               std::numeric_limits<T>::max_exponent};
  }
  static T make(const Rnd& r) {
    T v;
    if (r.inf) v = std::numeric_limits<T>::infinity();
    else { uint64_t m = mpz_get_ui(r.m.get_mpz_t()); v = (T)std::ldexp((long double)m, (int)r.e); }
    return r.neg ? -v : v;
  }
  static XR exact(T v) {
    if (v != v) return XR::no();
    if (v > std::numeric_limits<T>::max()) return XR::pinf();
    if (v < -std::numeric_limits<T>::max()) return XR::minf();
    if (v == 0) return XR(0L);
    int e; long double m = std::frexp((long double)v, &e); bool neg = m < 0; if (neg) m = -m;
    uint64_t k = (uint64_t)std::ldexp(m, 64);
    mpq_class q; mpz_set_ui(q.get_num_mpz_t(), k);
    if (e - 64 >= 0) mpz_mul_2exp(q.get_num_mpz_t(), q.get_num_mpz_t(), e - 64); else mpz_mul_2exp(q.get_den_mpz_t(), q.get_den_mpz_t(), 64 - e);
    q.canonicalize();
    if (neg) q = -q;
    return XR(q);
  }
  static std::string str(T v) { char b[80]; snprintf(b, 80, "%.21Lg(%La)", (long double)v, (long double)v); return b; }
};
template<> struct Num<float> : HwNum<float> {};
template<> struct Num<double> : HwNum<double> {};
template<> struct Num<long double> : HwNum<long double> {};

template<class T> T rnd(const XR& x, Dir d) { return Num<T>::make(round_to(Num<T>::fmt(), x, d)); }
template<class T> std::string str(T v) { return Num<T>::str(v); }

}  // namespace ex
