// C08: min, max, abs, width, median, norm, bisect, widen
#include "../harness/sets.hpp"
#include "arith_oracle.hpp"
using ex::XR;

template<class T> T near(const XR& x) { return ex::rnd<T>(x, ex::NEAR); }
template<class I> void suite(const std::string& cfg, bool hw, int level) {
  typedef typename I::base_type T;
  auto dp = make_dom<T>(level);
  std::string b = fmtv("%s: all %zu intervals over %d numbers, 4 ambient modes", cfg.c_str(), dp->iv.size(), dp->n);
  pair_suite<I>("minmax/" + cfg, hw, fmtv("%s: all pairs of the %zu intervals over %d numbers; numbers for every finite singleton", cfg.c_str(), dp->iv.size(), dp->n), dp,
    [](Ctx& c, const Dom<T>& d, P2 a, P2 b, const I& x, const I& y) {
      J<I> j{c, d, a, b, true};
      auto mx = [&](int p, int q) { return d.x[p] < d.x[q] ? d.v[q] : d.v[p]; };
      auto mn = [&](int p, int q) { return d.x[q] < d.x[p] ? d.v[q] : d.v[p]; };
      Exp<T> M = Exp<T>::V(mx(a.first, b.first), mx(a.second, b.second)), m = Exp<T>::V(mn(a.first, b.first), mn(a.second, b.second));
      j.tight("max(x,y)", M, [&] { return bn::max(x, y); });
      j.tight("min(x,y)", m, [&] { return bn::min(x, y); });
      if (b.first == b.second && d.fin(b.first)) {
        const T& v = d.v[b.first];
        j.tight("max(x,number)", M, [&] { return bn::max(x, v); });
        j.tight("max(number,x)", M, [&] { return bn::max(v, x); });
        j.tight("min(x,number)", m, [&] { return bn::min(x, v); });
        j.tight("min(number,x)", m, [&] { return bn::min(v, x); });
      }
      if (b.first == b.second && d.sgn(b.first) >= 0) {
        const T& v = d.v[b.first];
        j.tight("widen(x,v)", Exp<T>::V(d.L(SUB, a.first, b.first), d.U(ADD, a.second, b.first)), [&] { return bn::widen(x, v); });
      }
    });
  one_suite<I>("one/" + cfg, hw, b, dp, [](Ctx& c, const Dom<T>& d, P2 a, const I& x) {
    J<I> j{c, d, a, a, false};
    int sl = d.sgn(a.first), su = d.sgn(a.second);
    T nl = near<T>(-d.x[a.first]), nu = near<T>(-d.x[a.second]);
    T big = -d.x[a.first] < d.x[a.second] ? d.v[a.second] : nl;
    Exp<T> e = sl >= 0 ? Exp<T>::V(d.v[a.first], d.v[a.second]) : su <= 0 ? Exp<T>::V(nu, nl) : Exp<T>::V(T(0), big);
    j.tight("abs(x)", e, [&] { return bn::abs(x); });
    auto num = [&](const char* n, const T& want, const T& got) {
      c.hit(); c.outcome(hbits(got));
      if (!isnum(got) || !numeq(want, got)) c.fail(std::string(n) + "|" + j.args(), std::string(n) + " with " + j.args() + " is " + ex::str(got) + ", expected " + ex::str(want));
    };
    int m = Amb<T>::get();
    T w = bn::width(x); Amb<T>::set(m); num("width(x)", d.U(SUB, a.second, a.first), w);
    T N = bn::norm(x); Amb<T>::set(m); num("norm(x)", near<T>(ex::xmax(ex::xabs(d.x[a.first]), ex::xabs(d.x[a.second]))), N);
    bool both = !d.fin(a.first) && !d.fin(a.second);
    if (both) return;                  // no midpoint of the whole line
    T md = bn::median(x); Amb<T>::set(m);
    if (d.fin(a.first) && d.fin(a.second)) num("median(x)", near<T>(XR(mpq_class((d.x[a.first].q + d.x[a.second].q) / 2))), md);
    c.hit();
    if (!isnum(md) || numlt(md, d.v[a.first]) || numlt(d.v[a.second], md)) c.fail("median in x|" + j.args(), "median with " + j.args() + " is " + ex::str(md) + ", not a point of x");
    std::pair<I, I> p = bn::bisect(x); Amb<T>::set(m);
    c.hit();
    if (!numeq(p.first.lower(), d.v[a.first]) || !numeq(p.first.upper(), md) || !numeq(p.second.lower(), md) || !numeq(p.second.upper(), d.v[a.second]))
      c.fail("bisect|" + j.args(), "bisect with " + j.args() + " is " + outcome_of(p.first).s() + " and " + outcome_of(p.second).s());
  });
}
template<class T> void exact8(const std::string& name) {
  exact_suite<T>(name, [](auto& j) {
    typedef typename std::decay<decltype(j)>::type JJ;
    typedef typename JJ::I I;
    mpq_class z = 0; auto ab = [](const mpq_class& q) { return mpq_class(abs(q)); };
    mpq_class big = std::max(ab(j.xl), ab(j.xu)), small = sgn(j.xl) <= 0 && sgn(j.xu) >= 0 ? z : std::min(ab(j.xl), ab(j.xu));
    j.chk("abs", small, big, [&] { return bn::abs(j.x); });
    j.chk("max", std::max(j.xl, j.yl), std::max(j.xu, j.yu), [&] { return bn::max(j.x, j.y); });
    j.chk("min", std::min(j.xl, j.yl), std::min(j.xu, j.yu), [&] { return bn::min(j.x, j.y); });
    T v = j.y.lower();
    j.chk("max(x,n)", std::max(j.xl, j.yl), std::max(j.xu, j.yl), [&] { return bn::max(j.x, v); });
    j.chk("min(n,x)", std::min(j.xl, j.yl), std::min(j.xu, j.yl), [&] { return bn::min(v, j.x); });
    j.chk("width", j.xu - j.xl, j.xu - j.xl, [&] { T w = bn::width(j.x); return I(w, w, true); });
    j.chk("norm", big, big, [&] { T w = bn::norm(j.x); return I(w, w, true); });
    if (sgn(j.yl) >= 0) j.chk("widen", j.xl - j.yl, j.xu + j.yl, [&] { return bn::widen(j.x, v); });
    T m = bn::median(j.x);
    mpq_class mq = as_q(m), mid = (j.xl + j.xu) / 2;
    j.c.hit();
    if (mq < j.xl || j.xu < mq || abs(mpq_class(mq - mid)) >= (std::is_same<T, int>::value ? mpq_class(1) : mpq_class(1, 1000000))) j.c.fail("median|" + j.args, "median of " + j.args + " is " + mq.get_str());
    std::pair<I, I> p = bn::bisect(j.x);
    j.chk("bisect first", j.xl, mq, [&] { return p.first; });
    j.chk("bisect second", mq, j.xu, [&] { return p.second; });
  });
}
void register_suites() {
#ifdef UNIT_MINI
  typedef mini<3, 2> m6; typedef mini<3, 3> n6;
  suite<IBase<m6> >("mini<3,2>/opp/base", false, 0);
  suite<IStrict<m6> >("mini<3,2>/opp/strict", false, 0);
  suite<IStd<m6> >("mini<3,2>/std/base", false, 0);
  suite<IStdStrict<n6> >("mini<3,3>/std/strict", false, 0);
  if (tier()) { suite<IBase<mini<4, 2> > >("mini<4,2>/opp/base", false, 0); suite<IStd<mini<3, 3> > >("mini<3,3>/std/base", false, 0); suite<IBase<mini<4, 3> > >("mini<4,3>/opp/base", false, 0); }
#else
  int l = tier() ? 3 : 2;
  int w = tier() ? 11 : 10;         // wide alphabets
  suite<IBase<double> >("double/opp/base wide", true, w);
  suite<IStrict<float> >("float/default wide", true, w);
  suite<IStd<double> >("double/std/base wide", true, w);
  suite<IBase<long double> >("long double/opp/base wide", true, 10);
  suite<IBase<double> >("double/opp/base", true, l);
  suite<IStrict<double> >("double/default", true, l);
  suite<IBase<xfloat> >("extended registers/opp/base", true, l);
  suite<IStd<xfloat> >("extended registers/std/base", true, l);
  suite<IStrict<float> >("float/default", true, l);
  suite<IBase<long double> >("long double/opp/base", true, l - 1);
  suite<IStd<double> >("double/std/base", true, l);
  suite<IStd<float> >("float/std/base", true, l);
  exact8<int>("int"); exact8<Rat>("rational");
#endif
}
MC_MAIN
