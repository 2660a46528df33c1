// C17: exp, log, asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh
#include "transc_common.hpp"
using namespace ex;
static const std::vector<int> FNS = {F_EXP, F_LOG, F_ASIN, F_ACOS, F_ATAN, F_SINH, F_COSH, F_TANH, F_ASINH, F_ACOSH, F_ATANH};
template<class I> I apply(int f, const I& x) {
  switch (f) { case F_EXP: return exp(x); case F_LOG: return log(x); case F_ASIN: return asin(x); case F_ACOS: return acos(x); case F_ATAN: return atan(x);
    case F_SINH: return sinh(x); case F_COSH: return cosh(x); case F_TANH: return tanh(x); case F_ASINH: return asinh(x); case F_ACOSH: return acosh(x); default: return atanh(x); }
}
// expected result: 0 tight bounds l,u (with slack to the constants at the ends of the domain), 1 empty, 2 open
template<class T> struct TE { int kind; T l, u; bool lend, uend; };    // lend/uend: bound may be as wide as the pi constants
template<class T> TE<T> expect(const TDom<T>& d, int f, int a, int b) {
  TE<T> e; e.kind = 0; e.lend = e.uend = false; e.l = e.u = T(0);
  const XR &l = d.x[a], &u = d.x[b]; XR one(1L), mone(-1L), zero(0L);
  auto lo = [&](int i) { return d.flo[f][i]; }; auto hi = [&](int i) { return d.fhi[f][i]; };
  const T inf = std::numeric_limits<T>::infinity(), minf = -inf;
  switch (f) {
    case F_LOG: if (u <= zero) { e.kind = 1; return e; } e.l = l <= zero ? minf : lo(a); e.u = hi(b); return e;
    case F_ASIN: case F_ACOS: {
      if (u < mone || one < l) { e.kind = 1; return e; }
      bool atl = l <= mone, atu = one <= u;
      if (f == F_ASIN) { e.lend = atl; e.uend = atu; e.l = atl ? pi_round<T>(-1, 2, DOWN) : lo(a); e.u = atu ? pi_round<T>(1, 2, UP) : hi(b); }
      else { e.uend = atl; e.l = atu ? T(0) : lo(b); e.u = atl ? pi_round<T>(1, 1, UP) : hi(a); }
      return e; }
    case F_COSH: {
      int m = -1; bool neg = l < zero, pos = zero < u;
      if (neg && pos) { e.l = T(1); m = u < sub(zero, l) ? a : b; e.u = hi(m); }
      else if (!pos) { e.l = lo(b); e.u = hi(a); } else { e.l = lo(a); e.u = hi(b); }
      return e; }
    case F_ACOSH: if (u < one) { e.kind = 1; return e; } e.l = l <= one ? T(0) : lo(a); e.u = hi(b); return e;
    case F_ATANH:
      if (u < mone || one < l) { e.kind = 1; return e; }
      if (one <= l || u <= mone) { e.kind = 2; return e; }
      e.l = l <= mone ? minf : lo(a); e.u = one <= u ? inf : hi(b); return e;
    default: e.l = lo(a); e.u = hi(b); return e;
  }
}
template<class T> T wide_pi(int f) { return f == F_ASIN ? bil::constants::pi_half_upper<T>() : bil::constants::pi_upper<T>(); }

// tol: steps of slack of the platform's functions (0: correctly rounded)
template<class T, class R, class C> void suite(const std::string& cfg, bool hw, const std::shared_ptr<TDom<T> >& d, int tol) {
  typedef bn::interval<T, bil::policies<R, C> > I;
  for (int f : FNS) {
    bool through_double = tol && std::is_same<T, long double>::value && (f == F_ASINH || f == F_ACOSH || f == F_ATANH);
    one_suite<I>(cfg + " " + fn_name(f), hw, "every interval over the alphabet, in each ambient rounding mode", d, [=](Ctx& c, const Dom<T>& dd, std::pair<int, int> a, const I& x) {
      TE<T> e = expect(*d, f, a.first, a.second);
      int m = Amb<T>::get();
      Out<T> o = run<I>([&] { return apply(f, x); });
      Amb<T>::set(0);
      c.hit(); c.outcome(hbits(o.l) * 31 + hbits(o.u) + o.k);
      std::string id = std::string(fn_name(f)) + "(" + dd.s(a) + ")";
      if (e.kind == 2) { return; }
      if (e.kind == 1) { if (Strict<I>::value ? o.k != THROW_EMPTY : o.k != EMPTY) c.fail(id, id + " gives " + o.s() + ", the interval lies outside the domain"); return; }
      // the platform's functions do not always honour the rounding mode: judge the two bounds separately there
      if (tol ? o.k > EMPTY || !isnum(o.l) || !isnum(o.u) : o.k != VALUE) { c.fail(id, id + " gives " + o.s() + ", expected [" + ex::str(e.l) + ", " + ex::str(e.u) + "]"); return; }
      T l1 = e.l, l2 = e.l, u1 = e.u, u2 = e.u;       // l1 <= o.l <= l2, u1 <= o.u <= u2
      if (tol) { l1 = steps(l1, -tol); l2 = steps(l2, tol); u1 = steps(u1, -tol); u2 = steps(u2, tol); }
      if (through_double) { l1 = -std::numeric_limits<T>::infinity(); u2 = std::numeric_limits<T>::infinity(); l2 += (l2 < T(0) ? -l2 : l2) * T(1e-14L); u1 -= (u1 < T(0) ? -u1 : u1) * T(1e-14L); }
      if (e.lend) { T w = -wide_pi<T>(f); if (numlt(w, l1)) l1 = w; if (!tol) l2 = e.l; }
      if (e.uend) { T w = wide_pi<T>(f); if (numlt(u2, w)) u2 = w; if (!tol) u1 = e.u; }
      (void)m;
      if (numlt(o.l, l1) || numlt(l2, o.l) || numlt(o.u, u1) || numlt(u2, o.u))
        c.fail(id, id + " gives " + o.s() + ", the tightest enclosure of the image is [" + ex::str(e.l) + ", " + ex::str(e.u) + "]" + (tol ? " (with slack for the platform's functions)" : ""));
    });
  }
}
template<class T> void mini_all(const std::string& t) {
  using namespace bil;
  auto d = std::make_shared<TDom<T> >(0, FNS);
  suite<T, save_state<rounded_transc_opp<T> >, checking_base<T> >(t + " opp", false, d, 0);
  suite<T, save_state<rounded_transc_std<T> >, checking_base<T> >(t + " std", false, d, 0);
  suite<T, save_state<rounded_transc_std<T> >, checking_strict<T> >(t + " std strict", false, d, 0);
}
template<class T> std::vector<T> hwvals(int level) {
  std::vector<T> v = Alpha<T>::get(level);
  T extra[] = {T(0.5), T(2), T(0.75), T(10), T(88), T(89), T(104), T(700), T(710), T(746), T(11355), T(11357), std::nextafter(T(1), T(0)), std::nextafter(T(1), T(2)), T(0.7), std::ldexp(T(1), -30), std::ldexp(T(1), -std::numeric_limits<T>::digits / 2), T(19.1), T(22.5)};
  for (T e : extra) { v.push_back(e); v.push_back(-e); }
  return Alpha<T>::norm(v);
}
template<class T> void hw_all(const std::string& t, int level) {
  using namespace bil;
  auto d = std::make_shared<TDom<T> >(hwvals<T>(level), FNS);
  suite<T, save_state<transc_mpfr<T, rounded_arith_opp<T> > >, checking_base<T> >(t + " correctly rounded opp", true, d, 0);
  suite<T, save_state<transc_mpfr<T, rounded_arith_std<T> > >, checking_strict<T> >(t + " correctly rounded std", true, d, 0);
  suite<T, save_state<rounded_transc_opp<T> >, checking_base<T> >(t + " libm opp", true, d, 16);
  suite<T, save_state<rounded_transc_std<T> >, checking_base<T> >(t + " libm std", true, d, 16);
}
template<class T> void hw_wide(const std::string& t, int level) {
  using namespace bil;
  auto d = std::make_shared<TDom<T> >(level, FNS);
  suite<T, save_state<transc_mpfr<T, rounded_arith_opp<T> > >, checking_base<T> >(t + " correctly rounded opp wide", true, d, 0);
  suite<T, save_state<rounded_transc_opp<T> >, checking_base<T> >(t + " libm opp wide", true, d, 16);
  suite<T, save_state<rounded_transc_std<T> >, checking_base<T> >(t + " libm std wide", true, d, 16);
}
void register_suites() {
#ifdef UNIT_MINI
  mini_all<mini<3, 2> >("mini<3,2>"); mini_all<mini<3, 3> >("mini<3,3>"); mini_all<mini<4, 2> >("mini<4,2>");
  mini_all<mini<4, 3> >("mini<4,3>"); mini_all<mini<2, 4> >("mini<2,4>"); mini_all<mini<3, 4> >("mini<3,4>"); mini_all<mini<5, 2> >("mini<5,2>");
#else
  int l = tier() ? 3 : 2;
  int w = tier() ? 12 : 11;
  hw_wide<double>("double", w); hw_wide<float>("float", w);
  hw_all<double>("double", l); hw_all<float>("float", l); hw_all<long double>("long double", tier() ? 2 : 0);
#endif
}
MC_MAIN
