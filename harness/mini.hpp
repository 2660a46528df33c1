// mini<E,M,H>: a complete IEEE-754-like number type small enough to enumerate: E exponent bits, M mantissa bits,
// signed zeros, subnormals, infinities, NaN, and a (thread-local) rounding mode honoured by every operation.
// It is a *user base type* for the library: the code explored is the library's own templates.
// H::pt(kind) is called before every operation (scheduling / fault-injection point).
#pragma once
#include "exact.hpp"
#ifdef MINI_TRANSC
#include "mpfrx.hpp"
#endif
#include <type_traits>
#include <ostream>

enum PtKind { PT_ARITH, PT_CMP, PT_COPY, PT_CONV, PT_MODE, PT_FUNC };
struct NoHook { static void pt(int) {} };

inline thread_local int mini_mode = ex::NEAR;   // 0 nearest 1 down 2 up 3 zero
inline thread_local long mini_traps = 0;        // number of operations that returned NaN from non-NaN operands

template<int E, int M> struct MiniTab {
  enum { N = 1 << (E + M + 1), SB = 1 << (E + M), INF = ((1 << E) - 1) << M, NANC = INF + (M ? (1 << (M - 1)) : 1) };
  typedef unsigned char uc;
  double val[N]; ex::XR xr[N];
  uc* bin[4][4];       // op, mode
  uc un[6][4][N];      // sqrt, rint, floor, ceil, trunc
#ifdef MINI_TRANSC
  uc tr[ex::F_COUNT][4][N];
#endif
  static ex::Fmt fmt() { int bias = (1 << (E - 1)) - 1; return ex::Fmt{M + 1, 1 - bias - M, bias + 1}; }
  static uc encode(const ex::Rnd& r) {
    int s = r.neg ? SB : 0;
    if (r.inf) return s | INF;
    if (sgn(r.m) == 0) return s;
    long e = r.e; mpz_class m = r.m;
    long lsb = fmt().lsb;
    while (e > lsb && m < (1 << M)) { m *= 2; e--; }
    while (mpz_sizeinbase(m.get_mpz_t(), 2) > (size_t)(M + 1)) { if (mpz_odd_p(m.get_mpz_t())) abort(); m /= 2; e++; }
    while (e < lsb) { if (mpz_odd_p(m.get_mpz_t())) abort(); m /= 2; e++; }
    long mm = m.get_si();
    if (mm < (1 << M)) return s | mm;           // subnormal, e == lsb
    return s | ((e - lsb + 1) << M) | (mm - (1 << M));
  }
  static uc enc(const ex::XR& x, int mode) { return encode(ex::round_to(fmt(), x, (ex::Dir)mode)); }
  MiniTab() {
    for (int c = 0; c < N; c++) {
      bool neg = c & SB; int a = c & (SB - 1);
      if (a > INF) { val[c] = std::numeric_limits<double>::quiet_NaN(); xr[c] = ex::XR::no(); continue; }
      if (a == INF) { val[c] = neg ? -INFINITY : INFINITY; xr[c] = neg ? ex::XR::minf() : ex::XR::pinf(); continue; }
      int e = a >> M, m = a & ((1 << M) - 1);
      long lsb = fmt().lsb;
      val[c] = std::ldexp(e ? m + (1 << M) : m, lsb + (e ? e - 1 : 0));
      if (neg) val[c] = -val[c];
      xr[c] = ex::Num<double>::exact(val[c]);
    }
    for (int op = 0; op < 4; op++) for (int mode = 0; mode < 4; mode++) {
      uc* t = bin[op][mode] = new uc[N * N];
      for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) {
        uc r;
        const ex::XR &x = xr[a], &y = xr[b];
        if (x.nan || y.nan) r = NANC;
        else {
          int sa = (a & SB) ? 1 : 0, sb = (b & SB) ? 1 : 0;
          if (op == 0 || op == 1) {
            ex::XR v = op == 0 ? ex::add(x, y) : ex::sub(x, y);
            if (v.nan) r = NANC;
            else if (v.sign() == 0) {
              int s2 = op == 0 ? sb : !sb;
              bool xz = x.sign() == 0;
              int s = (xz && sa == s2) ? sa : (mode == ex::DOWN ? 1 : 0);
              r = s ? SB : 0;
            } else r = enc(v, mode);
          } else if (op == 2) {
            if ((x.inf && y.sign() == 0) || (y.inf && x.sign() == 0)) r = NANC;
            else { ex::XR v = ex::mul(x, y); r = enc(v, mode); r = (r & (SB - 1)) | ((sa ^ sb) ? SB : 0); }
          } else {
            if ((x.inf && y.inf) || (x.sign() == 0 && y.sign() == 0)) r = NANC;
            else if (y.sign() == 0) r = INF | ((sa ^ sb) ? SB : 0);
            else { ex::XR v = ex::div(x, y); r = enc(v, mode); r = (r & (SB - 1)) | ((sa ^ sb) ? SB : 0); }
          }
        }
        t[a * N + b] = r;
      }
    }
    for (int mode = 0; mode < 4; mode++) for (int c = 0; c < N; c++) {
      un[0][mode][c] = sq(c, mode);
      for (int k = 1; k <= 4; k++) {
        int md = k == 1 ? mode : k == 2 ? (int)ex::DOWN : k == 3 ? (int)ex::UP : (int)ex::ZERO;
        const ex::XR& x = xr[c];
        if (x.nan || x.inf || x.sign() == 0) { un[k][mode][c] = x.nan ? (int)NANC : c; continue; }
        ex::Fmt f{60, 0, 100};                     // round to integer
        ex::Rnd r = ex::round_to(f, x, (ex::Dir)md);
        mpq_class q = mpq_class(r.m) * ex::pow2(r.e); if (r.neg) q = -q;
        uc v = enc(ex::XR(q), mode);
        un[k][mode][c] = (v & (SB - 1)) | (c & SB);
      }
#ifdef MINI_TRANSC
      for (int f = 0; f < ex::F_COUNT; f++) {
        ex::XR v = ex::fx(f, xr[c]);
        uc r = v.nan ? (uc)NANC : enc(v, mode);
        if (!v.nan && v.sign() == 0) r = (f == ex::F_EXP || f == ex::F_LOG || f == ex::F_ACOS || f == ex::F_ACOSH) ? 0 : (c & SB);
        tr[f][mode][c] = r;
      }
#endif
    }
  }
  uc sq(int c, int mode) {
    const ex::XR& x = xr[c];
    if (x.nan) return NANC;
    if (x.sign() == 0) return c;
    if (x.sign() < 0) return NANC;
    if (x.inf) return c;
    // correctly rounded square root: search the format
    int lo = 0;                                   // largest code with value^2 <= x
    for (int k = 0; k < INF; k++) if (xr[k].q * xr[k].q <= x.q) lo = k; else break;
    if (xr[lo].q * xr[lo].q == x.q) return lo;
    if (mode == ex::DOWN || mode == ex::ZERO) return lo;
    if (mode == ex::UP) return lo + 1;
    mpq_class mid = (xr[lo].q + xr[lo + 1].q) / 2;
    return mid * mid < x.q ? lo + 1 : lo;         // sqrt is never a midpoint
  }
  static const MiniTab& get() { static const MiniTab* t = new MiniTab; return *t; }
};

template<int E, int M, class H = NoHook> struct mini {
  typedef MiniTab<E, M> Tab;
  typedef unsigned char uc;
  uc c;
  mini() : c(0) {}
  mini(const mini& o) : c((H::pt(PT_COPY), o.c)) {}
  mini& operator=(const mini& o) { H::pt(PT_COPY); c = o.c; return *this; }
  template<class U, class = typename std::enable_if<std::is_arithmetic<U>::value>::type>
  mini(U v) { H::pt(PT_CONV); c = from(v); }
  template<int E2, int M2, class H2, class = typename std::enable_if<(E2 != E || M2 != M)>::type>
  mini(const mini<E2, M2, H2>& o) { H::pt(PT_CONV); c = from(o.v()); }
  static mini code(int k) { mini r; r.c = k; return r; }
  static const Tab& tab() { return Tab::get(); }
  template<class U> static typename std::enable_if<std::is_integral<U>::value, uc>::type from(U v) {
    if (v >= 0 && v <= 2) return small(v);
    mpq_class q; 
    if (std::is_signed<U>::value) { long long w = (long long)v; unsigned long long a = w < 0 ? 0ull - (unsigned long long)w : (unsigned long long)w;
      mpz_set_ui(q.get_num_mpz_t(), a); if (w < 0) q = -q; }
    else mpz_set_ui(q.get_num_mpz_t(), (unsigned long)v);
    return Tab::enc(ex::XR(q), mini_mode);
  }
  static uc small(int v) { static const uc t[3] = {Tab::enc(ex::XR(0L), 0), Tab::enc(ex::XR(1L), 0), Tab::enc(ex::XR(2L), 0)}; return t[v]; }
  template<class U> static typename std::enable_if<std::is_floating_point<U>::value, uc>::type from(U v) {
    ex::XR x = ex::Num<U>::exact(v);
    if (x.nan) return Tab::NANC;
    uc r = Tab::enc(x, mini_mode);
    return std::signbit(v) ? r | Tab::SB : r & (Tab::SB - 1);
  }
  double v() const { return tab().val[c]; }
  static mini bop(int op, const mini& a, const mini& b) {
    H::pt(PT_ARITH);
    mini r; r.c = tab().bin[op][mini_mode][a.c * Tab::N + b.c];
    return r;
  }
  static mini uop(int op, const mini& a) { H::pt(PT_FUNC); mini r; r.c = tab().un[op][mini_mode][a.c]; return r; }
  friend mini operator+(const mini& a, const mini& b) { return bop(0, a, b); }
  friend mini operator-(const mini& a, const mini& b) { return bop(1, a, b); }
  friend mini operator*(const mini& a, const mini& b) { return bop(2, a, b); }
  friend mini operator/(const mini& a, const mini& b) { return bop(3, a, b); }
  friend mini operator-(const mini& a) { H::pt(PT_ARITH); mini r; r.c = a.c > 0 && (a.c & (Tab::SB - 1)) > Tab::INF ? a.c : a.c ^ Tab::SB; return r; }
  friend mini operator+(const mini& a) { return a; }
  mini& operator+=(const mini& b) { return *this = *this + b; }
  mini& operator-=(const mini& b) { return *this = *this - b; }
  mini& operator*=(const mini& b) { return *this = *this * b; }
  mini& operator/=(const mini& b) { return *this = *this / b; }
  friend bool operator<(const mini& a, const mini& b) { H::pt(PT_CMP); return a.v() < b.v(); }
  friend bool operator>(const mini& a, const mini& b) { H::pt(PT_CMP); return a.v() > b.v(); }
  friend bool operator<=(const mini& a, const mini& b) { H::pt(PT_CMP); return a.v() <= b.v(); }
  friend bool operator>=(const mini& a, const mini& b) { H::pt(PT_CMP); return a.v() >= b.v(); }
  friend bool operator==(const mini& a, const mini& b) { H::pt(PT_CMP); return a.v() == b.v(); }
  friend bool operator!=(const mini& a, const mini& b) { H::pt(PT_CMP); return a.v() != b.v(); }
  friend mini sqrt(const mini& a) { return uop(0, a); }
  friend mini rint(const mini& a) { return uop(1, a); }
  friend mini nearbyint(const mini& a) { return uop(1, a); }
  friend mini floor(const mini& a) { return uop(2, a); }
  friend mini ceil(const mini& a) { return uop(3, a); }
  friend mini trunc(const mini& a) { return uop(4, a); }
  friend mini abs(const mini& a) { mini r; r.c = a.c & (Tab::SB - 1); return r; }
  friend mini fabs(const mini& a) { mini r; r.c = a.c & (Tab::SB - 1); return r; }
  friend bool isnan(const mini& a) { return a.v() != a.v(); }
  friend bool signbit(const mini& a) { return a.c & Tab::SB; }
#ifdef MINI_TRANSC
  static mini trf(int f, const mini& a) { H::pt(PT_FUNC); mini r; r.c = tab().tr[f][mini_mode][a.c]; return r; }
#define MINI_TR(n, F) friend mini n(const mini& a) { return trf(ex::F, a); }
  MINI_TR(exp, F_EXP) MINI_TR(log, F_LOG) MINI_TR(sin, F_SIN) MINI_TR(cos, F_COS) MINI_TR(tan, F_TAN) MINI_TR(asin, F_ASIN)
  MINI_TR(acos, F_ACOS) MINI_TR(atan, F_ATAN) MINI_TR(sinh, F_SINH) MINI_TR(cosh, F_COSH) MINI_TR(tanh, F_TANH)
  MINI_TR(asinh, F_ASINH) MINI_TR(acosh, F_ACOSH) MINI_TR(atanh, F_ATANH)
#undef MINI_TR
#endif
  template<class C> friend std::basic_ostream<C>& operator<<(std::basic_ostream<C>& o, const mini& a) { return o << a.v(); }
};

namespace std {
template<int E, int M, class H> class numeric_limits<mini<E, M, H> > {
  typedef mini<E, M, H> T; typedef MiniTab<E, M> Tab;
public:
  static const bool is_specialized = true, is_signed = true, is_integer = false, is_exact = false, has_infinity = true,
    has_quiet_NaN = true, has_signaling_NaN = true, is_iec559 = true, is_bounded = true, is_modulo = false, traps = false, tinyness_before = false;
  static const int digits = M + 1, radix = 2, digits10 = 0, max_digits10 = 3;
  static const int min_exponent = 2 - ((1 << (E - 1)) - 1), max_exponent = (1 << (E - 1));
  static const int min_exponent10 = 0, max_exponent10 = 0;
  static const float_denorm_style has_denorm = denorm_present;
  static const bool has_denorm_loss = false;
  static const float_round_style round_style = round_to_nearest;
  static T infinity() { return T::code(Tab::INF); }
  static T quiet_NaN() { return T::code(Tab::NANC); }
  static T signaling_NaN() { return T::code(Tab::NANC); }
  static T max() { return T::code(Tab::INF - 1); }
  static T lowest() { return T::code((Tab::INF - 1) | Tab::SB); }
  static T min() { return T::code(1 << M); }
  static T denorm_min() { return T::code(1); }
  static T epsilon() { T r; r.c = Tab::enc(ex::XR(ex::pow2(-M)), 2); return r; }
  static T round_error() { return T::code(0); }
};
}

namespace ex {
template<int E, int M, class H> struct Num<mini<E, M, H> > {
  typedef mini<E, M, H> T;
  static Fmt fmt() { return MiniTab<E, M>::fmt(); }
  static T make(const Rnd& r) { return T::code(MiniTab<E, M>::encode(r)); }
  static XR exact(const T& v) { return MiniTab<E, M>::get().xr[v.c]; }
  static std::string str(const T& v) { char b[64]; snprintf(b, 64, "%g%s", v.v(), (v.v() == 0 && std::signbit(v.v())) ? "(-0)" : ""); return b; }
};
}

#include <boost/numeric/interval/rounding.hpp>
#include <boost/numeric/interval/rounded_arith.hpp>
#include <boost/numeric/interval/rounded_transc.hpp>
namespace boost { namespace numeric { namespace interval_lib {
template<int E, int M, class H> struct rounding_control<mini<E, M, H> > {
  typedef mini<E, M, H> T;
  typedef int rounding_mode;
  static void get_rounding_mode(rounding_mode& m) { H::pt(PT_MODE); m = mini_mode; }
  static void set_rounding_mode(rounding_mode m) { H::pt(PT_MODE); mini_mode = m; }
  static void downward() { set_rounding_mode(ex::DOWN); }
  static void upward() { set_rounding_mode(ex::UP); }
  static void to_nearest() { set_rounding_mode(ex::NEAR); }
  static void toward_zero() { set_rounding_mode(ex::ZERO); }
  static T to_int(const T& x) { return rint(x); }
  static T force_rounding(const T& x) { return x; }
};
template<int E, int M, class H> struct rounded_math<mini<E, M, H> > : save_state<rounded_arith_opp<mini<E, M, H> > > {};
}}}
