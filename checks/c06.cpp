// C06: square root and n-th roots
#include "powroot_oracle.hpp"
using ex::XR;

inline const std::vector<int>& ks() {
  static std::vector<int> v;
  if (v.empty()) {
    for (int k = 1; k <= 12; k++) v.push_back(k);
    for (int k : {15, 16, 17, 31, 32, 33, 63, 64, 100, 127, 1000}) v.push_back(k);
    for (int k : {13, 14, 18, 20, 24, 27, 40, 50, 65, 99, 255, 256}) v.push_back(k);
    if (tier()) { v.push_back(1023); v.push_back(1024); }
  }
  return v;
}
inline const std::vector<int>& hugeks() { static const std::vector<int> v = {4095, 65536, 16777217, INT_MAX - 1, INT_MAX}; return v; }

template<class I> void root_suite(const std::string& name, bool hw, std::shared_ptr<Dom<typename I::base_type> > dp, const std::vector<int>& K) {
  typedef typename I::base_type T;
  u64 N = dp->iv.size(), n = K.size();
  ex::Fmt f = ex::Num<T>::fmt();
  auto rt = std::make_shared<std::vector<std::vector<XR> > >(dp->n);
  for (int i = 0; i < dp->n; i++) for (int k : K) {
    XR x = dp->x[i];
    if (x.sign() < 0 && !(k & 1)) { (*rt)[i].push_back(XR::no()); continue; }
    (*rt)[i].push_back(x.sign() < 0 ? -ex::rootx(-x, k) : ex::rootx(x, k));
  }
  // magnitudes whose reciprocal is a normal number too
  XR nlo(ex::pow2(f.lsb + f.p + 1)), nhi(ex::pow2(f.emax - 3));
  mc::add(name, hw, fmtv("all %zu intervals over %d numbers x %zu root degrees (%d..%d)", dp->iv.size(), dp->n, K.size(), K.front(), K.back()), N * n,
    [=](u64 s, Ctx& c) {
      const Dom<T>& d = *dp; P2 a = d.iv[s / n]; int e = s % n, k = K[e];
      Amb<T>::set((s + s / n) & 3);
      I x(d.v[a.first], d.v[a.second], true);
      Out<T> o = run<I>([&] { return bn::nth_root(x, k); });
      Amb<T>::set(0);
      c.hit(); c.outcome(hbits(o.l) * 31 + hbits(o.u) + o.k);
      auto bad = [&](const std::string& why) { c.fail(fmtv("nth_root k=%d|x=", k) + d.s(a), "nth_root(" + d.s(a) + fmtv(", %d) gives ", k) + o.s() + ": " + why); };
      bool even = !(k & 1);
      if (even && d.sgn(a.second) < 0) { if (!agrees<I>(o, Exp<T>::E())) bad("expected the empty set (even root of negative numbers)"); return; }
      if (o.k != VALUE) { bad("a non-empty result was expected"); return; }
      XR wl = even && d.sgn(a.first) < 0 ? XR(0L) : (*rt)[a.first][e], wu = (*rt)[a.second][e];
      XR l = ex::Num<T>::exact(o.l), u = ex::Num<T>::exact(o.u);
      if (!(l <= wl) || !(wu <= u)) { bad("does not contain every root: [" + ex::str(ex::rnd<T>(wl, ex::NEAR)) + ", " + ex::str(ex::rnd<T>(wu, ex::NEAR)) + "]"); return; }
      if (even && l.sign() < 0) { bad("an even root is negative"); return; }
      if (wl.sign() == 0 && l.sign() != 0) { bad("lower bound should be zero"); return; }
      if (wu.sign() == 0 && u.sign() != 0) { bad("upper bound should be zero"); return; }
      if (wl.inf && !l.inf) { bad("infinite bound expected"); return; }
      if (k == 1 && (l < wl || wu < u)) { bad("the first root is not the argument"); return; }
      if (f.p >= 24 && k <= 33) {
        // ordinary magnitudes: within 8 units in the last place of the exact root
        auto chk = [&](const XR& g, const XR& w, const XR& arg) {
          XR aa = ex::xabs(arg);
          if (aa.inf || aa.sign() == 0 || aa < nlo || nhi < aa) return true;
          if (g.inf) return false;
          mpq_class ulp = ex::pow2(ex::ilog2(abs(w.q)) - f.p + 1);
          return abs(mpq_class(g.q - w.q)) <= 8 * ulp;
        };
        if (!chk(l, wl, d.x[a.first]) && wl.sign() != 0) { bad("lower bound more than 8 units in the last place from the root"); return; }
        if (!chk(u, wu, d.x[a.second]) && wu.sign() != 0) { bad("upper bound more than 8 units in the last place from the root"); return; }
      }
    }, [=](u64 s) { return name + ": x=" + dp->s(dp->iv[s / n]) + fmtv(" k=%d ambient %s", K[s % n], mode_name((s + s / n) & 3)); });
}

// f: sqrt rounds correctly in the mode in force?  always for these formats (IEEE sqrt / sqrtl / mini)
template<class I> void suite(const std::string& cfg, bool hw, int level, bool hugek = false) {
  typedef typename I::base_type T;
  auto dp = make_dom<T>(level);
  one_suite<I>("sqrt/" + cfg, hw, fmtv("all %zu intervals over %d numbers, 4 ambient modes", dp->iv.size(), dp->n), dp, [](Ctx& c, const Dom<T>& d, P2 a, const I& x) {
    J<I> j{c, d, a, a, false};
    Exp<T> e = Exp<T>::E();
    if (d.sgn(a.second) >= 0) {
      XR l = d.sgn(a.first) > 0 ? ex::rootx(d.x[a.first], 2) : XR(0L), u = ex::rootx(d.x[a.second], 2);
      e = Exp<T>::V(ex::rnd<T>(l, ex::DOWN), ex::rnd<T>(u, ex::UP));
    }
    j.tight("sqrt(x)", e, [&] { return bn::sqrt(x); });
  });
  root_suite<I>("nth_root/" + cfg, hw, dp, ks());
  if constexpr (std::is_floating_point<T>::value) if (hugek) {
    std::vector<T> few; typedef std::numeric_limits<T> L;
    for (T v : {T(0), T(1), T(2), T(0.5), T(3), L::max(), L::min(), L::denorm_min(), L::infinity()}) { few.push_back(v); if (v != 0) few.push_back(-v); }
    root_suite<I>("nth_root huge k/" + cfg, hw, std::make_shared<Dom<T> >(Alpha<T>::norm(few), false), hugeks());
  }
}
void register_suites() {
#ifdef UNIT_MINI
  typedef mini<3, 2> m6; typedef mini<2, 3> n6;
  suite<IBase<m6> >("mini<3,2>/opp/base", false, 0);
  suite<IStrict<m6> >("mini<3,2>/opp/strict", false, 0);
  suite<IStd<m6> >("mini<3,2>/std/base", false, 0);
  suite<IStdStrict<n6> >("mini<2,3>/std/strict", false, 0);
  suite<IBase<mini<3, 3> > >("mini<3,3>/opp/base", false, 0);
  suite<IStd<mini<4, 2> > >("mini<4,2>/std/base", false, 0);
  suite<IBase<mini<5, 2> > >("mini<5,2>/opp/base", false, 0);
  suite<IBase<mini<4, 3> > >("mini<4,3>/opp/base", false, 0); suite<IStd<mini<3, 4> > >("mini<3,4>/std/base", false, 0);
#else
  int l = tier() ? 3 : 1;
  int w = tier() ? 11 : 10;         // wide alphabets
  suite<IBase<double> >("double/opp/base wide", true, w);
  suite<IStrict<float> >("float/default wide", true, w);
  if (tier()) { suite<IStd<double> >("double/std/base wide", true, w); suite<IBase<long double> >("long double/opp/base wide", true, 10); }
  suite<IBase<double> >("double/opp/base", true, l, true);
  suite<IStrict<double> >("double/default", true, l);
  suite<IBase<xfloat> >("extended registers/opp/base", true, l, true);
  suite<IStd<xfloat> >("extended registers/std/base", true, l, true);
  suite<IStrict<float> >("float/default", true, l, true);
  suite<IBase<long double> >("long double/opp/base", true, 0, tier());
  suite<IStd<double> >("double/std/base", true, l);
  suite<IStd<float> >("float/std/base", true, l);
#endif
}
MC_MAIN
