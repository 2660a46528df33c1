// C04: division_part1 / division_part2
#include "arith_oracle.hpp"

template<class I> void suite(const std::string& cfg, bool hw, int level) {
  typedef typename I::base_type T;
  auto dp = make_dom<T>(level);
  std::string bound = fmtv("%s: all pairs of the %zu intervals over %d numbers", cfg.c_str(), dp->iv.size(), dp->n);
  pair_suite<I>("parts/" + cfg, hw, bound, dp, [](Ctx& c, const Dom<T>& d, P2 a, P2 b, const I& x, const I& y) {
    J<I> j{c, d, a, b, true};
    bool two = d.sgn(b.first) < 0 && d.sgn(b.second) > 0 && (d.sgn(a.first) > 0 || d.sgn(a.second) < 0);
    Exp<T> e1 = div_exp(d, a, b), e2 = Exp<T>::E();
    if (two) {
      Exp<T> n = div_half(d, a, b.first, -1), p = div_half(d, a, b.second, 1);
      if (d.sgn(a.first) > 0) { e1 = n; e2 = p; } else { e1 = p; e2 = n; }
    }
    for (int init = 0; init < 2; init++) {
      bool flag = init;
      j.tight("division_part1(x,y,b)", e1, [&] { return bil::division_part1(x, y, flag); });
      bool thrown = e1.empty && Strict<I>::value;
      if (flag != two && !(thrown && !flag))
        c.fail("division_part1 flag|" + j.args(), "division_part1 with " + j.args() + fmtv(" sets its flag to %d, the quotient set has %s", (int)flag, two ? "two pieces" : "one piece"));
    }
    if (two) {
      j.tight("division_part2(x,y,true)", e2, [&] { return bil::division_part2(x, y, true); });
      j.tight("division_part2(x,y)", e2, [&] { return bil::division_part2(x, y); });
    }
    j.tight("division_part2(x,y,false)", Exp<T>::E(), [&] { return bil::division_part2(x, y, false); });
  });
}
void register_suites() {
#ifdef UNIT_MINI
  typedef mini<3, 2> m6; typedef mini<2, 3> n6;
  suite<IBase<m6> >("mini<3,2>/opp/base", false, 0);
  suite<IStrict<m6> >("mini<3,2>/opp/strict", false, 0);
  suite<IStd<n6> >("mini<2,3>/std/base", false, 0);
  if (tier()) { suite<IBase<mini<4, 2> > >("mini<4,2>/opp/base", false, 0); suite<IStd<mini<3, 3> > >("mini<3,3>/std/base", false, 0); suite<IBase<mini<4, 3> > >("mini<4,3>/opp/base", false, 0); }
#else
  int l = tier() ? 3 : 2;
  int w = tier() ? 11 : 10;         // wide alphabets
  suite<IBase<double> >("double/opp/base wide", true, w);
  suite<IStrict<float> >("float/default wide", true, w);
  suite<IStd<double> >("double/std/base wide", true, w);
  suite<IBase<long double> >("long double/opp/base wide", true, 10);
  suite<IBase<double> >("double/opp/base", true, l);
  suite<IStrict<double> >("double/default", true, l - 1);
  suite<IBase<xfloat> >("extended registers/opp/base", true, l - 1);
  suite<IStd<xfloat> >("extended registers/std/base", true, l - 1);
  suite<IStrict<float> >("float/default", true, l - 1);
  suite<IBase<float> >("float/opp/base", true, l);
  suite<IBase<long double> >("long double/opp/base", true, l - 1);
  suite<IStd<double> >("double/std/base", true, l);
#endif
}
MC_MAIN
