// C03: division, multiplicative inverse
#include "arith_oracle.hpp"
#include "rational_common.hpp"

template<class I> void suite(const std::string& cfg, bool hw, int level) {
  typedef typename I::base_type T;
  auto dp = make_dom<T>(level);
  std::string bound = fmtv("%s: all pairs of the %zu intervals over %d numbers (denominators with zero inside, at either end, or outside); scalar forms for every finite singleton", cfg.c_str(), dp->iv.size(), dp->n);
  pair_suite<I>("div/" + cfg, hw, bound, dp, [](Ctx& c, const Dom<T>& d, P2 a, P2 b, const I& x, const I& y) {
    J<I> j{c, d, a, b, true};
    Exp<T> e = div_exp(d, a, b);
    j.tight("x/y", e, [&] { return x / y; });
    j.tight("x/=y", e, [&] { I r(x); I& q = (r /= y); if (&q != &r) throw std::logic_error("/= does not return *this"); return r; });
    bool fa = a.first == a.second && d.fin(a.first), fb = b.first == b.second && d.fin(b.first);
    if (fb) {
      const T& v = d.v[b.first];
      j.tight("x/number", e, [&] { return x / v; });
      j.tight("x/=number", e, [&] { I r(x); r /= v; return r; });
    }
    if (fa) { const T& w = d.v[a.first]; j.tight("number/y", e, [&] { return w / y; }); }
    if (fa && fb) { const T &w = d.v[a.first], &v = d.v[b.first]; j.tight("div(x,y)", e, [&] { return bil::div<I>(w, v); }); }
    if (a == b) {
      j.tight("x/=x (same object)", e, [&] { I r(x); r /= r; return r; });
      j.tight("x/x (same object)", e, [&] { return x / x; });
    }
  });
  one_suite<I>("inverse/" + cfg, hw, bound, dp, [](Ctx& c, const Dom<T>& d, P2 a, const I& x) {
    J<I> j{c, d, a, a, false};
    j.tight("multiplicative_inverse(x)", div_exp(d, P2(d.one, d.one), a), [&] { return bil::multiplicative_inverse(x); });
  });
}
void register_suites() {
#ifdef UNIT_MINI
  typedef mini<3, 2> m6; typedef mini<2, 3> n6;
  suite<IBase<m6> >("mini<3,2>/opp/base", false, 0);
  suite<IStrict<m6> >("mini<3,2>/opp/strict", false, 0);
  suite<IStd<m6> >("mini<3,2>/std/base", false, 0);
  suite<IStdStrict<n6> >("mini<2,3>/std/strict", false, 0);
  if (tier()) { suite<IBase<mini<4, 2> > >("mini<4,2>/opp/base", false, 0); suite<IStd<mini<3, 3> > >("mini<3,3>/std/base", false, 0); suite<IBase<mini<4, 3> > >("mini<4,3>/opp/base", false, 0); }
#else
  int l = tier() ? 3 : 2;
  int w = tier() ? 11 : 10;         // wide alphabets
  suite<IBase<double> >("double/opp/base wide", true, w);
  suite<IStrict<float> >("float/default wide", true, w);
  suite<IStd<double> >("double/std/base wide", true, w);
  suite<IBase<long double> >("long double/opp/base wide", true, 10);
  suite<IBase<double> >("double/opp/base", true, l);
  suite<IStrict<double> >("double/default", true, l);
  suite<IBase<xfloat> >("extended registers/opp/base", true, l);
  suite<IStd<xfloat> >("extended registers/std/base", true, l);
  suite<IStrict<float> >("float/default", true, l);
  suite<IBase<float> >("float/opp/base", true, l);
  suite<IBase<long double> >("long double/opp/base", true, l - 1);
  suite<IStrict<long double> >("long double/default", true, l - 1);
  suite<IStd<double> >("double/std/base", true, l);
  suite<IStd<float> >("float/std/base", true, l);
  suite<IStd<long double> >("long double/std/base", true, l - 1);
  exact_suite<Rat>("rational", [](auto& j) { j.divs(); });
#endif
}
MC_MAIN
