// C18: sin, cos, tan
#include "transc_common.hpp"
#include <boost/numeric/interval/constants.hpp>
using namespace ex;
struct PiTag { static void pt(int) {} };            // the same formats with their own, tightest, pi constants
template<int E, int M> using minip = mini<E, M, PiTag>;
namespace boost { namespace numeric { namespace interval_lib { namespace constants {
#define PIC(E, M) template<> inline minip<E, M> pi_lower<minip<E, M> >() { return pi_round<minip<E, M> >(1, 1, DOWN); } template<> inline minip<E, M> pi_upper<minip<E, M> >() { return pi_round<minip<E, M> >(1, 1, UP); } \
  template<> inline minip<E, M> pi_half_lower<minip<E, M> >() { return pi_round<minip<E, M> >(1, 2, DOWN); } template<> inline minip<E, M> pi_half_upper<minip<E, M> >() { return pi_round<minip<E, M> >(1, 2, UP); } \
  template<> inline minip<E, M> pi_twice_lower<minip<E, M> >() { return pi_round<minip<E, M> >(2, 1, DOWN); } template<> inline minip<E, M> pi_twice_upper<minip<E, M> >() { return pi_round<minip<E, M> >(2, 1, UP); }
PIC(3, 2) PIC(3, 3) PIC(3, 4) PIC(4, 3) PIC(5, 2)
}}}}
template<class I> I apply(int f, const I& x) { return f == F_SIN ? sin(x) : f == F_COS ? cos(x) : tan(x); }

struct Ref { XR lo, hi; bool pole; };
// true range over [l,u] of a finite interval; qa, qb: floor(2x/pi) of the bounds
struct Ang { mpz_class q; };          // floor(2 x / pi)
inline bool has_mult(const mpq_class& l, const mpz_class& ql, const mpz_class& qu, long r, long m) {     // an integer k == r mod m with l <= k pi/2 <= u ?
  // k ranges over ql+1..qu, and also k=0 when l is zero (the only multiple that is a rational)
  if (sgn(l) == 0 && r % m == 0) return true;
  mpz_class k = ql + 1, d; mpz_fdiv_r_ui(d.get_mpz_t(), mpz_class(r - k).get_mpz_t(), m); k += d;
  return k <= qu;
}
template<class T, class R, class C> void suite(const std::string& cfg, bool hw, const std::shared_ptr<TDom<T> >& d, int tol, double eps, double moderate) {
  typedef bn::interval<T, bil::policies<R, C> > I;
  auto q = std::make_shared<std::vector<mpz_class> >();
  for (int i = 0; i < d->n; i++) q->push_back(d->x[i].inf ? mpz_class(0) : floor_over_pi(d->x[i].q, 2, 1));
  for (int f : {F_SIN, F_COS, F_TAN})
    one_suite<I>(cfg + " " + fn_name(f), hw, "every interval over an alphabet around the multiples of pi/4, in each ambient rounding mode", d, [=](Ctx& c, const Dom<T>& dd, std::pair<int, int> a, const I& x) {
      if (d->x[a.first].inf || d->x[a.second].inf) return;
      const mpq_class &l = d->x[a.first].q, &u = d->x[a.second].q; const mpz_class &ql = (*q)[a.first], &qu = (*q)[a.second];
      XR fl = d->fv[f][a.first], fu = d->fv[f][a.second], lo = fl < fu ? fl : fu, hi = fl < fu ? fu : fl;
      // fx() brackets are off the true value by less than any format resolves
      bool pole = false;
      if (f == F_COS) { if (has_mult(l, ql, qu, 0, 4)) hi = XR(1L); if (has_mult(l, ql, qu, 2, 4)) lo = XR(-1L); }
      else if (f == F_SIN) { if (has_mult(l, ql, qu, 1, 4)) hi = XR(1L); if (has_mult(l, ql, qu, 3, 4)) lo = XR(-1L); }
      else if (has_mult(l, ql, qu, 1, 2)) { pole = true; lo = XR::minf(); hi = XR::pinf(); }
      Out<T> o = run<I>([&] { return apply(f, x); });
      Amb<T>::set(0);
      c.hit(); c.outcome(hbits(o.l) * 31 + hbits(o.u) + o.k);
      std::string id = std::string(fn_name(f)) + "(" + dd.s(a) + ")";
      auto bad = [&](const std::string& w) { c.fail(id, id + " gives " + o.s() + " bounds " + ex::str(o.l) + ", " + ex::str(o.u) + "; " + w); };
      // the platform's functions may cross by some units in the last place; nothing can be said about such a result
      if (tol && o.k == EMPTY && !pole && mpq_class(hi.q - lo.q).get_d() <= 64 * (double)ex::Num<T>::exact(std::numeric_limits<T>::epsilon()).q.get_d() * (1 + std::abs(hi.q.get_d()))) return;
      if (tol ? o.k > EMPTY || !isnum(o.l) || !isnum(o.u) : o.k != VALUE) { bad("expected an interval"); return; }
      XR L = ex::Num<T>::exact(tol ? steps(o.l, -tol) : o.l), U = ex::Num<T>::exact(tol ? steps(o.u, tol) : o.u);
      if (lo < L || U < hi) { bad("the true range is [" + (lo.inf ? std::string("-inf") : fmtv("%.17g", lo.q.get_d())) + ", " + (hi.inf ? std::string("inf") : fmtv("%.17g", hi.q.get_d())) + "]"); return; }
      XR l0 = ex::Num<T>::exact(o.l), u0 = ex::Num<T>::exact(o.u);
      if (f != F_TAN && (l0 < XR(-1L) || XR(1L) < u0)) { bad("bounds outside [-1,1]"); return; }
      if (f == F_TAN && (l0.inf || u0.inf) && !(l0.inf < 0 && u0.inf > 0)) { bad("half-line"); return; }
      if (eps > 0 && abs(l) <= moderate && abs(u) <= moderate) {
        double mag = std::max(std::abs(l.get_d()), std::abs(u.get_d())), t = 8 * (mag + 10) * eps, w = mpq_class(u - l).get_d();
        if (f != F_TAN && w < 3) {
          mpq_class a1 = lo.q - l0.q, a2 = u0.q - hi.q;
          if (a1.get_d() > t || a2.get_d() > t) bad(fmtv("needlessly wide: the true range is [%.17g, %.17g]", lo.q.get_d(), hi.q.get_d()));
        } else if (f == F_TAN && !pole && std::abs(lo.q.get_d()) < 50 && std::abs(hi.q.get_d()) < 50) {
          t *= 4 * (1 + std::max(lo.q.get_d() * lo.q.get_d(), hi.q.get_d() * hi.q.get_d()));
          if (l0.inf || u0.inf || mpq_class(lo.q - l0.q).get_d() > t || mpq_class(u0.q - hi.q).get_d() > t) bad(fmtv("needlessly wide: the true range is [%.17g, %.17g]", lo.q.get_d(), hi.q.get_d()));
        }
      }
    });
}
template<class T> std::vector<T> angles(int level) {
  std::vector<T> v;
  std::vector<long> ks = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 1000, 1004};
  if (level) { for (long k : {11L, 13L, 14L, 15L, 17L, 18L, 24L, 100000L, 100002L, 100003L, 1234567L}) ks.push_back(k); }
  if (level > 1) for (long k = 19; k < 64; k++) ks.push_back(k);
  for (long k : ks) { T a = pi_round<T>(k, 4, DOWN); for (int s = -1; s <= 2; s++) v.push_back(steps(a, s)); if (level) { v.push_back(a * (1 - 16 * std::numeric_limits<T>::epsilon())); v.push_back(a + T(0.01)); } }
  T e[] = {T(0), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::min(), T(1e-9), T(0.001), T(0.3), T(1), T(2), T(4), T(5), T(100), T(12345.678), T(1e6), T(1e8), T(1e10), T(1e20), std::numeric_limits<T>::max() / 3, std::numeric_limits<T>::max()};
  for (T a : e) v.push_back(a);
  int n = v.size(); for (int i = 0; i < n; i++) v.push_back(-v[i]);
  return Alpha<T>::norm(v);
}
static const std::vector<int> FNS = {F_SIN, F_COS, F_TAN};
template<class T> void mini_all(const std::string& t) {
  using namespace bil;
  auto d = std::make_shared<TDom<T> >(0, FNS);
  suite<T, save_state<rounded_transc_opp<T> >, checking_base<T> >(t + " opp", false, d, 0, 0, 0);
  suite<T, save_state<rounded_transc_std<T> >, checking_strict<T> >(t + " std strict", false, d, 0, 0, 0);
}
template<class T> void hw_all(const std::string& t, int level, double eps, double moderate) {
  using namespace bil;
  auto d = std::make_shared<TDom<T> >(angles<T>(level), FNS);
  suite<T, save_state<transc_mpfr<T, rounded_arith_opp<T> > >, checking_base<T> >(t + " correctly rounded opp", true, d, 0, eps, moderate);
  suite<T, save_state<transc_mpfr<T, rounded_arith_std<T> > >, checking_strict<T> >(t + " correctly rounded std", true, d, 0, eps, moderate);
  suite<T, save_state<rounded_transc_opp<T> >, checking_base<T> >(t + " libm opp", true, d, 16, eps, moderate);
  suite<T, save_state<rounded_transc_std<T> >, checking_base<T> >(t + " libm std", true, d, 16, eps, moderate);
}
void register_suites() {
#ifdef UNIT_MINI
  mini_all<mini<3, 2> >("mini<3,2>"); mini_all<mini<3, 3> >("mini<3,3>"); mini_all<mini<3, 4> >("mini<3,4>");
  mini_all<minip<3, 2> >("mini<3,2> own pi"); mini_all<minip<3, 3> >("mini<3,3> own pi"); mini_all<minip<3, 4> >("mini<3,4> own pi"); mini_all<minip<4, 3> >("mini<4,3> own pi");
  mini_all<mini<4, 3> >("mini<4,3>"); mini_all<mini<5, 2> >("mini<5,2>"); mini_all<minip<5, 2> >("mini<5,2> own pi");
#else
  int l = tier() ? 2 : 1;
  hw_all<double>("double", l, 0x1p-52, 1e6); hw_all<float>("float", l, 0x1p-23, 1000); hw_all<long double>("long double", l, 0x1p-52, 1e6);
#endif
}
MC_MAIN
