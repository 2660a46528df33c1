// C19: fmod(x, y): z contains x - n*y for one integer n, 0 <= z.lower() < y.upper(), no wider than one product and one difference make it
#include "arith_common.hpp"
#include "rational_common.hpp"
using namespace ex;
// floor and whether it is a number of the format
template<class T> bool representable(const mpz_class& n) { XR v{mpq_class(n)}; return Num<T>::exact(rnd<T>(v, DOWN)) == v; }
template<class T> mpq_class qv(const T& a) { return Num<T>::exact(a).q; }

template<class I> void judge(Ctx& c, const Dom<typename I::base_type>& d, std::pair<int, int> a, std::pair<int, int> b, const char* form, const Out<typename I::base_type>& o) {
  typedef typename I::base_type T;
  c.hit(); c.outcome(hbits(o.l) * 31 + hbits(o.u) + o.k);
  std::string id = std::string(form) + " x=" + d.s(a) + " y=" + d.s(b);
  auto bad = [&](const std::string& w) { c.fail(id, id + " gives " + o.s() + "; " + w); };
  if (o.k != VALUE) { bad("expected an interval"); return; }
  const mpq_class &xl = d.x[a.first].q, &xu = d.x[a.second].q, &yl = d.x[b.first].q; XR yu = d.x[b.second];
  XR zl = Num<T>::exact(o.l), zu = Num<T>::exact(o.u);
  // quotient
  XR q = sgn(xl) < 0 ? XR(mpq_class(xl / yl)) : yu.inf ? XR(0L) : XR(mpq_class(xl / yu.q));
  mpz_class n; mpz_fdiv_q(n.get_mpz_t(), q.q.get_num_mpz_t(), q.q.get_den_mpz_t());
  bool rep = representable<T>(n);
  // some integer n with  [xl, xu] - n*[yl, yu] inside [zl, zu]
  bool has = false;
  auto inside = [&](const mpz_class& k) {
    XR L, U;
    if (sgn(k) == 0) { L = XR(xl); U = XR(xu); }
    else if (sgn(k) > 0) { L = yu.inf ? XR::minf() : XR(mpq_class(xl - k * yu.q)); U = XR(mpq_class(xu - k * yl)); }
    else { L = XR(mpq_class(xl - k * yl)); U = yu.inf ? XR::pinf() : XR(mpq_class(xu - k * yu.q)); }
    return zl <= L && U <= zu;
  };
  has = inside(n) || inside(0);
  if (!has) {
    // k > 0: (xu - zu)/yl <= k <= (xl - zl)/yu;   k < 0: (xu - zu)/yu <= k <= (xl - zl)/yl
    for (int s = 0; s < 2 && !has; s++) {
      if (s == 0 ? yu.inf : false) continue;
      mpz_class k; bool ok = true;
      if (zl.inf > 0 || zu.inf < 0) break;
      if (zl.inf < 0) { // lower unconstrained: take the smallest admissible k
        if (zu.inf) { has = true; break; }
        mpq_class v = (xu - zu.q) / (s == 0 ? yl : (yu.inf ? yl : yu.q)); mpz_cdiv_q(k.get_mpz_t(), v.get_num_mpz_t(), v.get_den_mpz_t());
      } else { mpq_class v = (xl - zl.q) / (s == 0 ? yu.q : yl); mpz_fdiv_q(k.get_mpz_t(), v.get_num_mpz_t(), v.get_den_mpz_t()); }
      (void)ok; has = inside(k);
    }
  }
  if (!has) { bad("it contains x - n*y for no integer n"); return; }
  if (!rep) return;
  if (!inside(n)) { bad("it does not contain x - n*y for n = floor(quotient) = " + n.get_str()); return; }
  if (zl < XR(0L) || !(zl < yu)) { bad("the lower bound is not in [0, y.upper())"); return; }
  // width: one rounded product, one rounded difference
  XR kl, ku; bool neg = sgn(n) < 0;
  if (sgn(n) == 0) kl = ku = XR(0L); else { XR A = XR(mpq_class(n * yl)), B = yu.inf ? (neg ? XR::minf() : XR::pinf()) : XR(mpq_class(n * yu.q)); kl = neg ? B : A; ku = neg ? A : B; }
  XR pl = Num<T>::exact(rnd<T>(kl, DOWN)), pu = Num<T>::exact(rnd<T>(ku, UP));
  XR el = sub(XR(xl), pu), eu = sub(XR(xu), pl);
  XR wl = Num<T>::exact(rnd<T>(el, DOWN)), wu = Num<T>::exact(rnd<T>(eu, UP));
  if (zl < wl || wu < zu) bad("wider than outward rounding makes it: expected at most [" + ex::str(rnd<T>(el, DOWN)) + ", " + ex::str(rnd<T>(eu, UP)) + "]");
}
template<class I> void suite(const std::string& name, bool hw, int level) {
  typedef typename I::base_type T;
  auto d = make_dom<T>(level, false);
  pair_suite<I>(name, hw, "every bounded x and every y with positive lower bound, interval and number forms, in each ambient rounding mode", d, [](Ctx& c, const Dom<T>& d, std::pair<int, int> a, std::pair<int, int> b, const I& x, const I& y) {
    if (!d.fin(a.first) || !d.fin(a.second) || d.sgn(b.first) <= 0) return;
    int m = Amb<T>::get();
    judge<I>(c, d, a, b, "fmod(x, y)", run<I>([&] { return fmod(x, y); })); Amb<T>::set(m);
    if (b.first == b.second && d.fin(b.first)) { judge<I>(c, d, a, b, "fmod(x, number y)", run<I>([&] { return fmod(x, d.v[b.first]); })); Amb<T>::set(m); }
    if (a.first == a.second) judge<I>(c, d, a, b, "fmod(number x, y)", run<I>([&] { return fmod(d.v[a.first], y); }));
    Amb<T>::set(0);
  });
}
// exact base types: int with floor division (a user rounding policy), and rationals
struct floor_int : bil::rounded_arith_exact<int> {
  int div_down(int x, int y) { int q = x / y; return (x % y != 0 && (x < 0) != (y < 0)) ? q - 1 : q; }
  int div_up(int x, int y) { return -div_down(-x, y); }
  int int_down(int x) { return x; }
};
inline Rat floor(const Rat& a) { long q = a.n / a.d; if (a.n % a.d < 0) q--; return Rat(q); }
template<class T> struct ER { typedef bil::rounded_math<Rat> type; };
template<> struct ER<int> { typedef bil::save_state_nothing<floor_int> type; };
template<class T> void exact19(const std::string& name) {
  typedef bn::interval<T, bil::policies<typename ER<T>::type, bil::checking_base<T> > > I;
  exact_suite<T>(name, [](ExactJ<T>& j) {
    if (sgn(j.yl) <= 0) return;
    mpq_class yb = sgn(j.xl) < 0 ? j.yl : j.yu, q = j.xl / yb; mpz_class n; mpz_fdiv_q(n.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
    mpq_class a = n * j.yl, b = n * j.yu, lo = j.xl - std::max(a, b), hi = j.xu - std::min(a, b);
    I x(j.x.lower(), j.x.upper(), true), y(j.y.lower(), j.y.upper(), true);
    auto chk = [&](const char* op, const I& r) { j.c.hit(); if (as_q(r.lower()) != lo || as_q(r.upper()) != hi) { std::string k = std::string(op) + "|" + j.args; j.c.fail(k, k + " gives [" + as_q(r.lower()).get_str() + ", " + as_q(r.upper()).get_str() + "], exact [" + lo.get_str() + ", " + hi.get_str() + "]"); } };
    chk("fmod(x, y)", fmod(x, y));
    if (j.yl == j.yu) chk("fmod(x, number y)", fmod(x, y.lower()));
    if (j.xl == j.xu) chk("fmod(number x, y)", fmod(x.lower(), y));
  });
}
void register_suites() {
#ifdef UNIT_MINI
  suite<IBase<mini<2, 2> > >("mini<2,2> opp", false, 0); suite<IStd<mini<3, 2> > >("mini<3,2> std", false, 0); suite<IStrict<mini<3, 2> > >("mini<3,2> strict", false, 0); suite<IBase<mini<4, 1> > >("mini<4,1> opp", false, 0);
  suite<IBase<mini<2, 3> > >("mini<2,3> opp", false, 0);
  if (tier()) { suite<IBase<mini<3, 3> > >("mini<3,3> opp", false, 0); suite<IStd<mini<4, 2> > >("mini<4,2> std", false, 0); suite<IBase<mini<4, 3> > >("mini<4,3> opp", false, 0); }
#else
  int l = tier() ? 3 : 2;
  exact19<int>("int"); exact19<Rat>("rational");
  suite<IBase<double> >("double opp", true, l); suite<IStd<double> >("double std", true, l); suite<IStrict<float> >("float default", true, l); suite<IBase<long double> >("long double opp", true, l);
  suite<IBase<xfloat> >("extended registers opp", true, l); suite<IStd<xfloat> >("extended registers std", true, l);
  suite<IBase<double> >("double opp wide", true, tier() ? 11 : 10); suite<IStd<float> >("float std wide", true, tier() ? 11 : 10);
#endif
}
MC_MAIN
