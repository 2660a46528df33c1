// Domains (finite alphabets of numbers and all intervals over them), exact rounded tables, and outcome judging.
#pragma once
#include "engine.hpp"
#include "exact.hpp"
#include "mini.hpp"
#include "xfloat.hpp"
#include <xmmintrin.h>
#include <boost/numeric/interval.hpp>
#include <algorithm>
#include <memory>
#include <map>

namespace bn = boost::numeric;
namespace bil = boost::numeric::interval_lib;
using mc::u64;

// ---- ambient rounding mode -------------------------------------------------------------------------------------
template<class T> struct Amb {           // hardware
  static int tomode(int m) { static const int t[4] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO}; return t[m & 3]; }
  static void set(int m) { std::fesetround(tomode(m)); }
  static int get() { int r = std::fegetround(), sse = (_mm_getcsr() >> 13) & 3; if ((r >> 10) != sse) return -1; for (int m = 0; m < 4; m++) if (tomode(m) == r) return m; return -1; }
};
template<int E, int M, class H> struct Amb<mini<E, M, H> > {
  static void set(int m) { mini_mode = m & 3; }
  static int get() { return mini_mode; }
};
inline const char* mode_name(int m) { static const char* n[] = {"to-nearest", "downward", "upward", "toward-zero"}; return m < 0 ? "?" : n[m & 3]; }

// ---- alphabets -------------------------------------------------------------------------------------------------
template<class T> struct Alpha {         // hardware formats: the corner values of the format, by level of detail
  // levels 10, 11, 12: a wide alphabet, magnitudes over the whole exponent range and the ordinary ones densely
  static std::vector<T> wide(int detail) {
    typedef std::numeric_limits<T> L;
    const int p = L::digits, emin = L::min_exponent - p, emax = L::max_exponent;
    std::vector<T> v = get(1);
    auto both = [&](T a) { if (a == a) { v.push_back(a); v.push_back(-a); } };
    const T m[] = {T(1), T(4) / 3, 1 + L::epsilon(), 2 - L::epsilon(), T(1.1L), T(1.5707963267948966L), T(1.75), T(1.0625)};
    int k = 0, step = (emax - emin) / (detail ? detail > 1 ? 60 : 30 : 15);
    for (int e = emin + 1; e < emax; e += step) both(std::ldexp(m[k++ % 8], e));
    for (int e = -8; e <= 70 && e < emax - 1; e += detail ? 1 : 3) both(std::ldexp(m[k++ % 8], e));
    for (int i = 4; i <= (detail ? 24 : 12); i++) both(T(i));
    for (int i = 2; i < 10; i += detail ? 1 : 3) both(T(i) / 10);
    for (int e = -12; e <= 22; e += detail ? 2 : 5) both(std::pow(T(10), e));
    for (int e : {8, 15, 16, 24, 31, 32, 53, 63, 64}) { T t = std::ldexp(T(1), e); both(t); if (detail) { both(t - 1); both(t + 1); both(std::nextafter(t, T(0))); } }
    if (detail) for (long double w : {0.25L, 0.75L, 1.25L, 2.5L, 3.5L, 3.14159265358979323846L, 2.718281828459045L, 1.4142135623730951L, 123.456L, 99.99L, 1e-3L, 360.0L, 180.0L, 1234567.0L, 0.015625L}) both(T(w));
    return norm(v);
  }
  static std::vector<T> get(int level) {
    if (level >= 10) return wide(level - 10);
    typedef std::numeric_limits<T> L;
    const int p = L::digits;
    const T mx = L::max(), mn = L::min(), dn = L::denorm_min(), inf = L::infinity();
    std::vector<T> v;
    auto both = [&](T a) { v.push_back(a); v.push_back(-a); };
    const T one = 1, eps = L::epsilon();
    v.push_back(0); v.push_back(inf); v.push_back(-inf);
    both(one); both(mx); both(dn); both(T(3)); both(one / 3); both(mn);
    both(one + eps); both(T(0.1L));
    if (level >= 1) {
      v.push_back(-T(0));
      both(one - eps / 2); both(T(2)); both(T(7)); both(T(0.5)); both(mx / 2); both(std::ldexp(one, p)); both(std::sqrt(mx));
      both(mn - dn); both(T(1e3L) / 7);
    }
    if (level >= 2) {
      both(dn * 3); both(mn + dn); both(std::ldexp(one, p) - 1); both(T(1.5)); both(T(10)); both(std::sqrt(mn)); both(mx / 3); both(T(2) / 3);
      both(std::nextafter(mx, T(0))); both(std::ldexp(one, L::max_exponent / 2)); both(std::ldexp(one, p - 1) + T(0.5)); both(one + 3 * eps);
    }
    if (level >= 3) {
      for (int e = L::min_exponent - p + 1; e < L::max_exponent; e += (L::max_exponent - L::min_exponent) / 12) both(std::ldexp(T(4) / 3, e));
      both(T(1e-5L)); both(T(22) / 7); both(T(100)); both(T(5)); both(T(6));
    }
    return norm(v);
  }
  static std::vector<T> norm(std::vector<T> v) {
    std::vector<T> r;
    std::sort(v.begin(), v.end(), [](T a, T b) { return a < b || (a == b && std::signbit(a) && !std::signbit(b)); });
    for (T a : v) if (r.empty() || r.back() != a || std::signbit(r.back()) != std::signbit(a)) r.push_back(a);
    return r;
  }
};
// the intervals over a wide alphabet: singletons, neighbours, a quarter of the range, symmetric ones, those ending in zero or infinity
inline std::vector<std::pair<int, int> > sparse_pairs(const std::vector<ex::XR>& x) {
  std::vector<std::pair<int, int> > r; int n = x.size(), zero = 0, lo = 0, hi = n - 1;
  for (int i = 0; i < n; i++) if (x[i].finite() && x[i].sign() == 0) zero = i;
  auto put = [&](int i, int j) { if (i < 0 || j >= n || x[j] < x[i] || x[i].inf > 0 || x[j].inf < 0) return; r.push_back(std::make_pair(i, j)); };
  for (int i = 0; i < n; i++) {
    put(i, i); put(i, i + 1); put(i, i + 3); put(i, i + n / 4); put(i, hi); put(lo, i); put(i, zero); put(zero, i);
    for (int j = n - 1; j > i; j--) if (x[i].finite() && x[j].finite() && x[i].q == -x[j].q) { put(i, j); put(i, j + 1); break; }
  }
  put(lo, hi);
  std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}
template<int E, int M, class H> struct Alpha<mini<E, M, H> > {
  typedef mini<E, M, H> T;
  static std::vector<T> get(int) {       // every number of the format
    std::vector<T> r;
    int inf = MiniTab<E, M>::INF, sb = MiniTab<E, M>::SB;
    for (int c = inf; c >= 0; c--) r.push_back(T::code(c | sb));
    for (int c = 0; c <= inf; c++) r.push_back(T::code(c));
    return r;
  }
};

template<> struct Alpha<xfloat> {
  static std::vector<xfloat> get(int level) { std::vector<xfloat> r; for (float f : Alpha<float>::get(level)) r.push_back(xfloat(f)); return r; }
};

// raw comparison, independent of hooks and of the library
template<class T> inline bool numeq(const T& a, const T& b) { return a == b; }
template<int E, int M, class H> inline bool numeq(const mini<E, M, H>& a, const mini<E, M, H>& b) { return a.v() == b.v(); }
template<class T> inline bool numlt(const T& a, const T& b) { return a < b; }
template<int E, int M, class H> inline bool numlt(const mini<E, M, H>& a, const mini<E, M, H>& b) { return a.v() < b.v(); }
template<class T> inline bool isnum(const T& a) { return a == a; }
template<int E, int M, class H> inline bool isnum(const mini<E, M, H>& a) { return a.v() == a.v(); }
template<class T> inline u64 hbits(const T& a) { u64 r = 0; memcpy(&r, &a, sizeof(a) < 8 ? sizeof(a) : 8); return r; }

enum { ADD, SUB, MUL, DIV, NOPS };

template<class T> struct Dom {
  std::vector<T> v; std::vector<ex::XR> x;
  std::vector<std::pair<int, int> > iv;     // indices of lower, upper of every interval
  int n;
  int ninf, pinf, zero, one, mone;          // indices of special numbers
  std::vector<T> lo[NOPS], hi[NOPS];        // rounded exact results (NaN where there is none)
  std::vector<char> has[NOPS];
  Dom(int level, bool tables = true) { init(Alpha<T>::get(level), tables, level >= 10); }
  Dom(const std::vector<T>& vals, bool tables) { init(vals, tables); }
  void init(const std::vector<T>& vals, bool tables, bool sparse = false) {
    std::fesetround(FE_TONEAREST); mini_mode = 0;
    v = vals; n = v.size(); zero = one = mone = ninf = pinf = -1;
    for (int i = 0; i < n; i++) {
      x.push_back(ex::Num<T>::exact(v[i]));
      if (x[i].inf < 0) ninf = i; else if (x[i].inf > 0) pinf = i;
      else if (x[i].sign() == 0) zero = i; else if (x[i].q == 1) one = i; else if (x[i].q == -1) mone = i;
    }
    if (sparse) iv = sparse_pairs(x);
    else for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
      if (x[i].inf > 0 || x[j].inf < 0) continue;      // degenerate infinite intervals are outside the documented model
      if (x[i] <= x[j]) iv.push_back(std::make_pair(i, j));
    }
    if (!tables) return;
    for (int op = 0; op < NOPS; op++) {
      lo[op].resize(n * n); hi[op].resize(n * n); has[op].assign(n * n, 0);
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        ex::XR r = op == ADD ? ex::add(x[i], x[j]) : op == SUB ? ex::sub(x[i], x[j]) : op == MUL ? ex::mul(x[i], x[j]) : ex::div(x[i], x[j]);
        if (r.nan) continue;
        has[op][i * n + j] = 1; lo[op][i * n + j] = ex::rnd<T>(r, ex::DOWN); hi[op][i * n + j] = ex::rnd<T>(r, ex::UP);
      }
    }
  }
  const T& L(int op, int i, int j) const { return lo[op][i * n + j]; }
  const T& U(int op, int i, int j) const { return hi[op][i * n + j]; }
  bool H(int op, int i, int j) const { return has[op][i * n + j]; }
  int sgn(int i) const { return x[i].sign(); }
  bool fin(int i) const { return !x[i].inf; }
  std::string s(int i) const { return ex::str(v[i]); }
  std::string s(const std::pair<int, int>& p) const { return "[" + s(p.first) + ", " + s(p.second) + "]"; }
};

// domains are shared by the configurations of a program
template<class T> inline std::shared_ptr<Dom<T> > make_dom(int level, bool tables = true) {
  static std::map<std::pair<int, bool>, std::shared_ptr<Dom<T> > > made;
  std::shared_ptr<Dom<T> >& p = made[std::make_pair(level, tables)];
  if (!p) p = std::make_shared<Dom<T> >(level, tables);
  return p;
}
// ---- outcomes --------------------------------------------------------------------------------------------------
enum Kind { VALUE, EMPTY, THROW_EMPTY, THROW_NAN, THROW_CMP, THROW_OTHER };
inline const char* kind_name(int k) { static const char* n[] = {"value", "empty", "throws runtime_error (empty)", "throws invalid_argument", "throws comparison_error", "throws another exception"}; return n[k]; }
template<class T> struct Out {
  Kind k; T l, u;
  std::string s() const { return k == VALUE ? "[" + ex::str(l) + ", " + ex::str(u) + "]" : kind_name(k); }
};
template<class T> struct Exp {
  bool empty; T l, u;
  static Exp E() { Exp e; e.empty = true; e.l = e.u = T(0); return e; }
  static Exp V(const T& l, const T& u) { Exp e; e.empty = false; e.l = l; e.u = u; return e; }
  std::string s() const { return empty ? "empty" : "[" + ex::str(l) + ", " + ex::str(u) + "]"; }
};
template<class T> inline Exp<T> xhull(const Exp<T>& a, const Exp<T>& b) {
  if (a.empty) return b;
  if (b.empty) return a;
  return Exp<T>::V(numlt(b.l, a.l) ? b.l : a.l, numlt(a.u, b.u) ? b.u : a.u);
}
template<class I> inline Out<typename I::base_type> outcome_of(const I& r) {
  Out<typename I::base_type> o; o.l = r.lower(); o.u = r.upper();
  o.k = isnum(o.l) && isnum(o.u) && !numlt(o.u, o.l) ? VALUE : EMPTY;
  return o;
}
template<class I, class F> inline Out<typename I::base_type> run(F f) {
  Out<typename I::base_type> o; o.l = o.u = typename I::base_type(0);
  try { I r = f(); return outcome_of(r); }
  catch (bil::comparison_error&) { o.k = THROW_CMP; }
  catch (std::invalid_argument&) { o.k = THROW_NAN; }
  catch (std::runtime_error&) { o.k = THROW_EMPTY; }
  catch (std::exception&) { o.k = THROW_OTHER; }
  return o;
}
// does policy class of I report empties by exception?
template<class I> struct Strict { static const bool value = false; };
template<class T, class R> struct Strict<bn::interval<T, bil::policies<R, bil::checking_strict<T> > > > { static const bool value = true; };

template<class I> inline bool agrees(const Out<typename I::base_type>& o, const Exp<typename I::base_type>& e) {
  if (e.empty) return Strict<I>::value ? o.k == THROW_EMPTY : o.k == EMPTY;
  return o.k == VALUE && numeq(o.l, e.l) && numeq(o.u, e.u);
}
template<class I> inline bool encloses(const Out<typename I::base_type>& o, const Exp<typename I::base_type>& e) {
  if (e.empty) return true;
  return o.k == VALUE && !numlt(e.l, o.l) && !numlt(o.u, e.u);
}

// ---- configurations --------------------------------------------------------------------------------------------
template<class T> using PBase = bil::policies<bil::rounded_math<T>, bil::checking_base<T> >;
template<class T> using PStrict = bil::policies<bil::rounded_math<T>, bil::checking_strict<T> >;
template<class T> using PStd = bil::policies<bil::save_state<bil::rounded_arith_std<T> >, bil::checking_base<T> >;
template<class T> using PStdStrict = bil::policies<bil::save_state<bil::rounded_arith_std<T> >, bil::checking_strict<T> >;
template<class T> using IBase = bn::interval<T, PBase<T> >;
template<class T> using IStrict = bn::interval<T>;     // the default policies of the library
template<class T> using IStd = bn::interval<T, PStd<T> >;
template<class T> using IStdStrict = bn::interval<T, PStdStrict<T> >;

// keep the optimiser from moving floating-point work across mode changes
template<class T> inline void launder(T& v) { asm volatile("" : "+m"(v) : : "memory"); }

inline int tier() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough" ? 1 : 0; }
