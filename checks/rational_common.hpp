// Base types whose own arithmetic is exact (int without overflow; an exact rational class): the library's default
// rounded_math is exact for them, so results must be the exact set images.
#pragma once
#include "arith_common.hpp"

struct Rat {                       // exact rational, a user-defined base type without infinities or NaN
  long n, d;
  Rat(long a = 0, long b = 1) : n(a), d(b) { norm(); }
  void norm() { if (d < 0) { n = -n; d = -d; } long a = n < 0 ? -n : n, b = d; while (b) { long t = a % b; a = b; b = t; } if (a > 1) { n /= a; d /= a; } }
  friend Rat operator+(const Rat& a, const Rat& b) { return Rat(a.n * b.d + b.n * a.d, a.d * b.d); }
  friend Rat operator-(const Rat& a, const Rat& b) { return Rat(a.n * b.d - b.n * a.d, a.d * b.d); }
  friend Rat operator*(const Rat& a, const Rat& b) { return Rat(a.n * b.n, a.d * b.d); }
  friend Rat operator/(const Rat& a, const Rat& b) { if (b.n == 0) throw std::domain_error("Rat: division by zero"); return Rat(a.n * b.d, a.d * b.n); }
  friend Rat operator-(const Rat& a) { return Rat(-a.n, a.d); }
  friend Rat abs(const Rat& a) { return a < Rat(0) ? -a : a; }
  friend Rat operator+(const Rat& a) { return a; }
  Rat& operator+=(const Rat& b) { return *this = *this + b; }
  Rat& operator-=(const Rat& b) { return *this = *this - b; }
  Rat& operator*=(const Rat& b) { return *this = *this * b; }
  Rat& operator/=(const Rat& b) { return *this = *this / b; }
  friend bool operator<(const Rat& a, const Rat& b) { return a.n * b.d < b.n * a.d; }
  friend bool operator>(const Rat& a, const Rat& b) { return b < a; }
  friend bool operator<=(const Rat& a, const Rat& b) { return !(b < a); }
  friend bool operator>=(const Rat& a, const Rat& b) { return !(a < b); }
  friend bool operator==(const Rat& a, const Rat& b) { return a.n == b.n && a.d == b.d; }
  friend bool operator!=(const Rat& a, const Rat& b) { return !(a == b); }
  template<class C> friend std::basic_ostream<C>& operator<<(std::basic_ostream<C>& o, const Rat& a) { return o << a.n << '/' << a.d; }
};
inline long as_num(int v) { return v; } inline long as_den(int) { return 1; }
inline long as_num(const Rat& v) { return v.n; } inline long as_den(const Rat& v) { return v.d; }
template<class T> inline mpq_class as_q(const T& v) { mpq_class q(as_num(v), as_den(v)); q.canonicalize(); return q; }

template<class T> struct ExactJ {
  typedef bn::interval<T, bil::policies<bil::rounded_math<T>, bil::checking_base<T> > > I;
  Ctx& c; I x, y; std::string args;
  mpq_class xl, xu, yl, yu;
  template<class F> void chk(const char* op, const mpq_class& l, const mpq_class& u, F f) {
    I r = f(); c.hit();
    if (as_q(r.lower()) != l || as_q(r.upper()) != u) {
      std::string k = std::string(op) + "|" + args;
      c.fail(k, k + " gives [" + as_q(r.lower()).get_str() + ", " + as_q(r.upper()).get_str() + "], exact [" + l.get_str() + ", " + u.get_str() + "]");
    }
  }
  template<class F> void chk4(const char* op, const mpq_class& a, const mpq_class& b, const mpq_class& p, const mpq_class& q, F f) {
    mpq_class l = std::min(std::min(a, b), std::min(p, q)), u = std::max(std::max(a, b), std::max(p, q));
    chk(op, l, u, f);
  }
  void addsub() {
    chk("x+y", xl + yl, xu + yu, [&] { return x + y; });
    chk("x-y", xl - yu, xu - yl, [&] { return x - y; });
    chk("x+=y", xl + yl, xu + yu, [&] { I r(x); r += y; return r; });
    chk("x-=y", xl - yu, xu - yl, [&] { I r(x); r -= y; return r; });
    chk("-x", -xu, -xl, [&] { return -x; });
    T v = y.lower();
    chk("x+n", xl + yl, xu + yl, [&] { return x + v; });
    chk("n+x", xl + yl, xu + yl, [&] { return v + x; });
    chk("x-n", xl - yl, xu - yl, [&] { return x - v; });
    chk("n-x", yl - xu, yl - xl, [&] { return v - x; });
  }
  void mulsq() {
    chk4("x*y", xl * yl, xl * yu, xu * yl, xu * yu, [&] { return x * y; });
    chk4("x*=y", xl * yl, xl * yu, xu * yl, xu * yu, [&] { I r(x); r *= y; return r; });
    T v = y.lower();
    chk4("x*n", xl * yl, xl * yl, xu * yl, xu * yl, [&] { return x * v; });
    chk4("n*x", xl * yl, xl * yl, xu * yl, xu * yl, [&] { return v * x; });
  }
  void divs() {
    if (sgn(yl) * sgn(yu) > 0) {
      chk4("x/y", xl / yl, xl / yu, xu / yl, xu / yu, [&] { return x / y; });
      chk4("x/=y", xl / yl, xl / yu, xu / yl, xu / yu, [&] { I r(x); r /= y; return r; });
      T v = y.lower(), w = x.lower();
      chk4("x/n", xl / yl, xl / yl, xu / yl, xu / yl, [&] { return x / v; });
      chk4("n/y", xl / yl, xl / yl, xl / yu, xl / yu, [&] { return w / y; });
      chk4("inv(y)", 1 / yl, 1 / yl, 1 / yu, 1 / yu, [&] { return bil::multiplicative_inverse(y); });
    }
  }
  void pows() {
    mpq_class z = 0;
    auto sq = [](const mpq_class& a) { return mpq_class(a * a); };
    chk4("square", (sgn(xl) <= 0 && sgn(xu) >= 0) ? z : std::min(sq(xl), sq(xu)), sq(xl), sq(xu), sq(xu), [&] { return bn::square(x); });
    for (int k = 1; k <= 4; k++) {
      mpq_class a = ex::ipow(xl, k), b = ex::ipow(xu, k);
      mpq_class l = (k & 1) ? a : (sgn(xl) <= 0 && sgn(xu) >= 0) ? z : std::min(a, b), u = (k & 1) ? b : std::max(a, b);
      chk(k == 1 ? "pow1" : k == 2 ? "pow2" : k == 3 ? "pow3" : "pow4", l, u, [&] { return bn::pow(x, k); });
      if (std::is_same<T, Rat>::value && sgn(xl) * sgn(xu) > 0) chk("pow-neg", 1 / u, 1 / l, [&] { return bn::pow(x, -k); });
    }
  }
};
template<class T> std::vector<T> exact_vals();
template<> inline std::vector<int> exact_vals<int>() { std::vector<int> v; for (int i = -7; i <= 7; i++) v.push_back(i); return v; }
template<> inline std::vector<Rat> exact_vals<Rat>() {
  std::vector<Rat> v;
  for (int k = 0; k < 2; k++) { long s = k ? 1 : -1; for (long a : {1, 2, 3, 7}) for (long b : {1, 2, 5}) { Rat r(s * a, b); bool dup = false; for (auto& q : v) if (q == r) dup = true; if (!dup) v.push_back(r); } }
  v.push_back(Rat(0));
  return v;
}
template<class T, class F> void exact_suite(const std::string& name, F f) {
  typedef typename ExactJ<T>::I I;
  auto ivs = std::make_shared<std::vector<I> >();
  std::vector<T> v = exact_vals<T>();
  for (auto& a : v) for (auto& b : v) if (a <= b) ivs->push_back(I(a, b, true));
  u64 N = ivs->size();
  auto desc = [=](u64 s) { std::ostringstream o; const I &x = (*ivs)[s / N], &y = (*ivs)[s % N];
    o << "exact/" << name << ": x=[" << x.lower() << "," << x.upper() << "] y=[" << y.lower() << "," << y.upper() << "]"; return o.str(); };
  mc::add("exact/" + name, true, fmtv("all pairs of %zu intervals over %zu exact numbers", ivs->size(), v.size()), N * N, [=](u64 s, Ctx& c) {
    const I &x = (*ivs)[s / N], &y = (*ivs)[s % N];
    ExactJ<T> j{c, x, y, desc(s), as_q(x.lower()), as_q(x.upper()), as_q(y.lower()), as_q(y.upper())};
    f(j);
  }, desc);
}
