// C01: addition, subtraction, negation
#include "arith_common.hpp"

template<class I> void suite(const std::string& cfg, bool hw, int level) {
  typedef typename I::base_type T;
  auto dp = make_dom<T>(level);
  std::string bound = fmtv("%s: all pairs of the %zu intervals over %d numbers; scalar forms for every finite singleton", cfg.c_str(), dp->iv.size(), dp->n);
  pair_suite<I>("add_sub/" + cfg, hw, bound, dp, [](Ctx& c, const Dom<T>& d, std::pair<int, int> a, std::pair<int, int> b, const I& x, const I& y) {
    J<I> j{c, d, a, b, true};
    Exp<T> s = Exp<T>::V(d.L(ADD, a.first, b.first), d.U(ADD, a.second, b.second));
    Exp<T> m = Exp<T>::V(d.L(SUB, a.first, b.second), d.U(SUB, a.second, b.first));
    j.tight("x+y", s, [&] { return x + y; });
    j.tight("x+=y", s, [&] { I r(x); I& q = (r += y); if (&q != &r) throw std::logic_error("+= does not return *this"); return r; });
    j.tight("x-y", m, [&] { return x - y; });
    j.tight("x-=y", m, [&] { I r(x); I& q = (r -= y); if (&q != &r) throw std::logic_error("-= does not return *this"); return r; });
    if (b.first == b.second && d.fin(b.first)) {
      const T& v = d.v[b.first];
      Exp<T> rm = Exp<T>::V(d.L(SUB, b.first, a.second), d.U(SUB, b.first, a.first));
      j.tight("x+number", s, [&] { return x + v; });
      j.tight("number+x", s, [&] { return v + x; });
      j.tight("x+=number", s, [&] { I r(x); r += v; return r; });
      j.tight("x-number", m, [&] { return x - v; });
      j.tight("number-x", rm, [&] { return v - x; });
      j.tight("x-=number", m, [&] { I r(x); r -= v; return r; });
      if (a.first == a.second && d.fin(a.first)) {
        const T& w = d.v[a.first];
        j.tight("add(x,y)", s, [&] { return bil::add<I>(w, v); });
        j.tight("sub(x,y)", m, [&] { return bil::sub<I>(w, v); });
      }
    }
  });
  one_suite<I>("neg/" + cfg, hw, bound, dp, [](Ctx& c, const Dom<T>& d, std::pair<int, int> a, const I& x) {
    J<I> j{c, d, a, a, false};
    T nl = ex::rnd<T>(-d.x[a.second], ex::NEAR), nu = ex::rnd<T>(-d.x[a.first], ex::NEAR);
    j.tight("-x", Exp<T>::V(nl, nu), [&] { return -x; });
    j.tight("+x", Exp<T>::V(d.v[a.first], d.v[a.second]), [&] { return +x; });
    j.tight("x+x", Exp<T>::V(d.L(ADD, a.first, a.first), d.U(ADD, a.second, a.second)), [&] { return x + x; });
    j.tight("x+=x", Exp<T>::V(d.L(ADD, a.first, a.first), d.U(ADD, a.second, a.second)), [&] { I r(x); r += r; return r; });
    j.tight("x-=x", Exp<T>::V(d.L(SUB, a.first, a.second), d.U(SUB, a.second, a.first)), [&] { I r(x); r -= r; return r; });
  });
}

#include "rational_common.hpp"

void register_suites() {
#ifdef UNIT_MINI
  typedef mini<3, 2> m6;
  suite<IBase<m6> >("mini<3,2>/opp/base", false, 0);
  suite<IStrict<m6> >("mini<3,2>/opp/strict", false, 0);
  suite<IStd<m6> >("mini<3,2>/std/base", false, 0);
  typedef mini<2, 3> n6;
  suite<IStdStrict<n6> >("mini<2,3>/std/strict", false, 0);
  if (tier()) { suite<IBase<mini<4, 2> > >("mini<4,2>/opp/base", false, 0); suite<IStd<mini<3, 3> > >("mini<3,3>/std/base", false, 0); suite<IBase<mini<4, 3> > >("mini<4,3>/opp/base", false, 0); }
#else
  int l = tier() ? 3 : 2;
  int w = tier() ? 11 : 10;         // wide alphabets
  suite<IBase<double> >("double/opp/base wide", true, w);
  suite<IStrict<float> >("float/default wide", true, w);
  suite<IStd<double> >("double/std/base wide", true, w);
  suite<IBase<long double> >("long double/opp/base wide", true, 10);
  suite<IBase<double> >("double/opp/base", true, l);
  suite<IStrict<double> >("double/default", true, l);
  suite<IBase<xfloat> >("extended registers/opp/base", true, l);
  suite<IStd<xfloat> >("extended registers/std/base", true, l);
  suite<IStrict<float> >("float/default", true, l);
  suite<IBase<float> >("float/opp/base", true, l);
  suite<IBase<long double> >("long double/opp/base", true, l - 1);
  suite<IStrict<long double> >("long double/default", true, l - 1);
  suite<IStd<double> >("double/std/base", true, l);
  suite<IStd<float> >("float/std/base", true, l);
  suite<IStd<long double> >("long double/std/base", true, l - 1);
  exact_suite<int>("int", [](auto& j) { j.addsub(); });
  exact_suite<Rat>("rational", [](auto& j) { j.addsub(); });
#endif
}
MC_MAIN
