// C05: square and integer power
#include "powroot_oracle.hpp"
#include "rational_common.hpp"
using ex::XR;

inline const std::vector<int>& exps() {
  static std::vector<int> v;
  if (v.empty()) {
    for (int k = -12; k <= 12; k++) v.push_back(k);
    for (int k : {15, 16, 17, 20, 31, 32, 33, 63, 64, 100, 127, 255, 256, 1000, 1023, 1024, 4096, 65535, 16777217, INT_MAX - 1, INT_MAX}) { v.push_back(k); v.push_back(-k); }
    v.push_back(INT_MIN);
    for (int k = 13; k <= 80; k++) { v.push_back(k); v.push_back(-k); }
  }
  return v;
}
template<class T> struct PowTab {
  std::vector<std::vector<XR> > p;      // [value][exponent index] = v^|k|
  PowTab(const Dom<T>& d) {
    auto& K = exps();
    p.resize(d.n);
    for (int i = 0; i < d.n; i++) for (int k : K) { unsigned long a = k < 0 ? 0ul - (long)k : k; p[i].push_back(a == 0 ? XR(1L) : ex::powx(d.x[i], a)); }
  }
};
struct RI { bool empty; XR l, u; };
inline RI power_image(const XR& a, const XR& b, int sl, int su, int k) {   // a, b: end points to the |k|; sl, su signs of the end points
  RI r; r.empty = false;
  if (k == 0) { r.l = r.u = XR(1L); return r; }
  if (k & 1) { r.l = a; r.u = b; }
  else if (sl <= 0 && su >= 0) { r.l = XR(0L); r.u = ex::xmax(a, b); }
  else { r.l = ex::xmin(a, b); r.u = ex::xmax(a, b); }
  if (k < 0) {
    int l = r.l.sign(), u = r.u.sign();
    if (l == 0 && u == 0) { r.empty = true; return r; }
    if (l > 0 || u < 0) { XR t = ex::inv(r.u); r.u = ex::inv(r.l); r.l = t; }
    else if (l == 0) { r.l = ex::inv(r.u); r.u = XR::pinf(); }
    else if (u == 0) { r.u = ex::inv(r.l); r.l = XR::minf(); }
    else { r.l = XR::minf(); r.u = XR::pinf(); }
  }
  return r;
}
template<class T> bool representable(const XR& x) { return ex::Num<T>::exact(ex::rnd<T>(x, ex::DOWN)) == x; }

template<class I> void suite(const std::string& cfg, bool hw, int level) {
  typedef typename I::base_type T;
  auto dp = make_dom<T>(level);
  auto pt = std::make_shared<PowTab<T> >(*dp);
  u64 N = dp->iv.size(), K = exps().size();
  ex::Fmt f = ex::Num<T>::fmt();
  XR nmin(ex::pow2(f.lsb + f.p - 1)), nmax(ex::pow2(f.emax - 1));
  // exactly[i][k]: every power v^1..v^|k| is representable (all repeated products exact)
  auto exactly = std::make_shared<std::vector<std::vector<char> > >(dp->n, std::vector<char>(K, 0));
  for (int i = 0; i < dp->n; i++) for (u64 e = 0; e < K; e++) {
    int k = exps()[e]; int ak = k < 0 ? -k : k; if (k == INT_MIN || ak > 64) { (*exactly)[i][e] = dp->x[i].sign() == 0; continue; }
    bool ok = true; if (!dp->x[i].inf) for (int j = 1; j <= ak && ok; j++) ok = representable<T>(XR(ex::ipow(dp->x[i].q, j)));
    (*exactly)[i][e] = ok;
  }
  auto describe = [=](u64 s) { return "pow/" + cfg + ": x=" + dp->s(dp->iv[s / K]) + fmtv(" n=%d ambient %s", exps()[s % K], mode_name(s & 3)); };
  mc::add("pow/" + cfg, hw, fmtv("%s: all %zu intervals over %d numbers x %zu exponents (-12..12, powers of two and neighbours, INT_MAX, INT_MIN)", cfg.c_str(), (size_t)N, dp->n, (size_t)K), N * K,
    [=](u64 s, Ctx& c) {
      const Dom<T>& d = *dp; P2 a = d.iv[s / K]; int e = s % K, k = exps()[e];
      if (k == 0 && d.sgn(a.first) == 0 && d.sgn(a.second) == 0) return;      // 0^0 is left open
      Amb<T>::set(s & 3);
      I x(d.v[a.first], d.v[a.second], true);
      Out<T> o = run<I>([&] { return bn::pow(x, k); });
      Amb<T>::set(0);
      c.hit(); c.outcome(hbits(o.l) * 31 + hbits(o.u) + o.k);
      RI im = power_image(pt->p[a.first][e], pt->p[a.second][e], d.sgn(a.first), d.sgn(a.second), k);
      auto bad = [&](const char* why) { c.fail(fmtv("pow n=%d|x=", k) + d.s(a), "pow(" + d.s(a) + fmtv(", %d) gives ", k) + o.s() + ": " + why); };
      if (im.empty) { if (!agrees<I>(o, Exp<T>::E())) bad("expected the empty set (a negative power of zero)"); return; }
      if (o.k != VALUE) { bad("a non-empty result was expected"); return; }
      XR l = ex::Num<T>::exact(o.l), u = ex::Num<T>::exact(o.u);
      if (!(l <= im.l) || !(im.u <= u)) { bad("does not enclose every power"); return; }
      if (k != 0 && !(k & 1) && l.sign() < 0) { bad("an even power has a negative lower bound"); return; }
      if (k > 0 && !(k & 1) && im.l.sign() == 0 && l.sign() != 0) { bad("lower bound of an even power over an interval containing zero is not zero"); return; }
      if (k == 0 && !(l == XR(1L) && u == XR(1L))) { bad("x^0 is not 1"); return; }
      // exactness / accuracy of each bound
      bool eb = (*exactly)[a.first][e] && (*exactly)[a.second][e];
      if (eb) {
        Exp<T> t = Exp<T>::V(ex::rnd<T>(im.l, ex::DOWN), ex::rnd<T>(im.u, ex::UP));
        if (!agrees<I>(o, t)) { bad(("all repeated products are exact, so the result must be " + t.s()).c_str()); return; }
      } else {
        long ak = k < 0 ? -(long)k : k;
        if (ak + 1 <= (1L << (f.p - 1)) && ak <= 5000) {
          mpq_class eps = ex::pow2(1 - f.p);
          mpq_class lo = 1 - (ak + 1) * eps; if (sgn(lo) < 0) lo = 0;                 // >= (1-eps)^(ak+1) is implied by a larger bound; use Bernoulli
          mpq_class hi = ex::ipow(mpq_class(1) + eps, ak > 200 ? 200 : ak + 1); if (ak > 200) hi = 1 + 2 * (ak + 1) * eps;
          auto normal = [&](const XR& q) { XR z = ex::xabs(q); return z.finite() && nmin <= z && z < nmax; };
          auto chk = [&](const XR& got, const XR& want) {
            XR w = ex::xabs(want), g = ex::xabs(got);
            if (!normal(want) || !normal(k < 0 ? ex::inv(want) : want)) return true;
            if (g.inf) return false;
            return w.q * lo <= g.q && g.q <= w.q * hi * hi;
          };
          if (!chk(l, im.l) || !chk(u, im.u)) { bad("wider than repeated outward-rounded multiplication can make it"); return; }
        }
      }
    }, describe);
  one_suite<I>("square/" + cfg, hw, "all intervals", dp, [](Ctx& c, const Dom<T>& d, P2 a, const I& x) {
    J<I> j{c, d, a, a, false};
    Exp<T> l = Exp<T>::V(d.L(MUL, a.first, a.first), d.U(MUL, a.first, a.first)), u = Exp<T>::V(d.L(MUL, a.second, a.second), d.U(MUL, a.second, a.second));
    Exp<T> e = xhull(l, u);
    if (d.sgn(a.first) <= 0 && d.sgn(a.second) >= 0) e.l = T(0);
    j.tight("square(x)", e, [&] { return bn::square(x); });
  });
}
void register_suites() {
#ifdef UNIT_MINI
  typedef mini<3, 2> m6; typedef mini<2, 3> n6;
  suite<IBase<m6> >("mini<3,2>/opp/base", false, 0);
  suite<IStrict<m6> >("mini<3,2>/opp/strict", false, 0);
  suite<IStd<m6> >("mini<3,2>/std/base", false, 0);
  suite<IStdStrict<n6> >("mini<2,3>/std/strict", false, 0);
  suite<IBase<mini<3, 3> > >("mini<3,3>/opp/base", false, 0);
  suite<IBase<mini<4, 2> > >("mini<4,2>/opp/base", false, 0);
  suite<IStd<mini<4, 3> > >("mini<4,3>/std/base", false, 0); suite<IBase<mini<3, 4> > >("mini<3,4>/opp/base", false, 0); suite<IBase<mini<5, 2> > >("mini<5,2>/opp/base", false, 0);
#else
  int l = tier() ? 3 : 2;
  int w = tier() ? 11 : 10;         // wide alphabets
  suite<IBase<double> >("double/opp/base wide", true, w);
  suite<IStrict<float> >("float/default wide", true, w);
  suite<IStd<double> >("double/std/base wide", true, w);
  suite<IBase<long double> >("long double/opp/base wide", true, 10);
  suite<IBase<double> >("double/opp/base", true, l);
  suite<IStrict<double> >("double/default", true, l);
  suite<IBase<xfloat> >("extended registers/opp/base", true, l);
  suite<IStd<xfloat> >("extended registers/std/base", true, l);
  suite<IStrict<float> >("float/default", true, l);
  suite<IBase<long double> >("long double/opp/base", true, l);
  suite<IStd<double> >("double/std/base", true, l);
  suite<IStd<float> >("float/std/base", true, l);
  exact_suite<int>("int", [](auto& j) { j.pows(); });
  exact_suite<Rat>("rational", [](auto& j) { j.pows(); });
#endif
}
MC_MAIN
