// C25: the rounding policy layer
#define MINI_TRANSC
#include "powroot_oracle.hpp"
#include "policy_common.hpp"
#include "rational_common.hpp"
using namespace bil;

template<class T> void both(const std::string& t, bool hw, int level, int tol) {
  arith_policy<T, rounded_arith_std<T> >(t + " std", hw, level, S_STD);
  arith_policy<T, rounded_arith_opp<T> >(t + " opp", hw, level, S_OPP);
  conv_all<T, rounded_arith_std<T> >(t + " std", hw, S_STD);
  conv_all<T, rounded_arith_opp<T> >(t + " opp", hw, S_OPP);
  transc_policy<T, rounded_transc_std<T> >(t + " std", hw, tol && level > 2 ? 2 : level, S_STD, tol);
  transc_policy<T, rounded_transc_opp<T> >(t + " opp", hw, tol && level > 2 ? 2 : level, S_OPP, tol);
  control_policy<T, rounding_control<T> >(t, hw, level);
  scope_policy<T, save_state<rounded_arith_opp<T> >, save_state<rounded_arith_std<T> > >(t, hw, tier() ? 8 : 6);
}
// the exact strategy performs the type's own operation, in whatever mode is in force, and never touches the mode
template<class T> void exact_strategy(const std::string& t, bool hw, int level) {
  auto d = std::make_shared<Dom<T> >(level); u64 n = d->n;
  typedef rounded_transc_exact<T> PO;
  mc::add("exact/" + t, hw, t + ": every operation of the exact strategy on every pair, in each mode", n * n * 4, [=](u64 s, Ctx& c) {
    int i = s / 4 / n, j = s / 4 % n, m = s & 3; const T &x = d->v[i], &y = d->v[j];
    auto chk = [&](const char* op, auto f, auto g) {
      Amb<T>::set(m); PO p; T r = f(p); int after = Amb<T>::get(); Amb<T>::set(m); T w = g(); Amb<T>::set(0);
      c.hit(); c.outcome(hbits(r));
      if ((isnum(r) || isnum(w)) && !numeq(r, w)) c.fail(t + "|" + op, std::string("exact ") + op + "(" + d->s(i) + ", " + d->s(j) + ") differs from the type's own operation");
      if (after != m) c.fail(t + "|mode|" + op, std::string("exact ") + op + " changes the rounding mode");
    };
    if (d->H(ADD, i, j)) { chk("add_down", [&](PO& p) { return p.add_down(x, y); }, [&] { return T(x + y); }); chk("add_up", [&](PO& p) { return p.add_up(x, y); }, [&] { return T(x + y); }); }
    if (d->H(SUB, i, j)) { chk("sub_down", [&](PO& p) { return p.sub_down(x, y); }, [&] { return T(x - y); }); chk("sub_up", [&](PO& p) { return p.sub_up(x, y); }, [&] { return T(x - y); }); }
    chk("mul_down", [&](PO& p) { return p.mul_down(x, y); }, [&] { return T(x * y); }); chk("mul_up", [&](PO& p) { return p.mul_up(x, y); }, [&] { return T(x * y); });
    if (d->H(DIV, i, j)) { chk("div_down", [&](PO& p) { return p.div_down(x, y); }, [&] { return T(x / y); }); chk("div_up", [&](PO& p) { return p.div_up(x, y); }, [&] { return T(x / y); }); }
    chk("median", [&](PO& p) { return p.median(x, y); }, [&] { return T((x + y) / T(2)); });
    if (j) return;
    using std::sqrt; using std::floor; using std::ceil;
    chk("conv_down", [&](PO& p) { return p.conv_down(x); }, [&] { return x; }); chk("conv_up", [&](PO& p) { return p.conv_up(x); }, [&] { return x; });
    if (d->sgn(i) >= 0) { chk("sqrt_down", [&](PO& p) { return p.sqrt_down(x); }, [&] { return T(sqrt(x)); }); chk("sqrt_up", [&](PO& p) { return p.sqrt_up(x); }, [&] { return T(sqrt(x)); }); }
    chk("int_down", [&](PO& p) { return p.int_down(x); }, [&] { return T(floor(x)); }); chk("int_up", [&](PO& p) { return p.int_up(x); }, [&] { return T(ceil(x)); });
  }, [=](u64 s) { return "exact/" + t + ": " + d->s(s / 4 / n) + ", " + d->s(s / 4 % n) + " in mode " + mode_name(s & 3); });
}
// exact base types through rounded_math: results are the exact values
template<class T> void exact_base(const std::string& t) {
  auto v = std::make_shared<std::vector<T> >(exact_vals<T>()); u64 n = v->size();
  mc::add("exact base/" + t, true, t + ": every pair of the exact numbers through rounded_math", n * n, [=](u64 s, Ctx& c) {
    const T &x = (*v)[s / n], &y = (*v)[s % n]; mpq_class a = as_q(x), b = as_q(y);
    rounded_math<T> r; 
    auto chk = [&](const char* op, const T& g, const mpq_class& w) { c.hit(); c.outcome(as_num(g) * 7919 + as_den(g)); if (as_q(g) != w) c.fail(t + "|" + op, t + std::string(" ") + op + "(" + a.get_str() + ", " + b.get_str() + ") = " + as_q(g).get_str()); };
    chk("add_down", r.add_down(x, y), a + b); chk("add_up", r.add_up(x, y), a + b); chk("sub_down", r.sub_down(x, y), a - b); chk("sub_up", r.sub_up(x, y), a - b);
    chk("mul_down", r.mul_down(x, y), a * b); chk("mul_up", r.mul_up(x, y), a * b);
    if (std::is_same<T, Rat>::value) { if (sgn(b)) { chk("div_down", r.div_down(x, y), a / b); chk("div_up", r.div_up(x, y), a / b); } chk("median", r.median(x, y), (a + b) / 2); }
    chk("conv_down", r.conv_down(x), a); chk("conv_up", r.conv_up(x), a);
  }, [=](u64 s) { return "exact base/" + t + ": " + as_q((*v)[s / n]).get_str() + ", " + as_q((*v)[s % n]).get_str(); });
}
void register_suites() {
#ifdef UNIT_MINI
#if HWT == 1
  both<mini<3, 2> >("mini<3,2>", false, 0, 0); both<mini<3, 3> >("mini<3,3>", false, 0, 0);
#else
  both<mini<4, 2> >("mini<4,2>", false, 0, 0); both<mini<3, 4> >("mini<3,4>", false, 0, 0);
#endif
#if HWT == 2 && defined(THOROUGH)
  { both<mini<4, 3> >("mini<4,3>", false, 0, 0); both<mini<3, 1> >("mini<3,1>", false, 0, 0); both<mini<5, 2> >("mini<5,2>", false, 0, 0); }
#elif HWT == 1
  exact_strategy<mini<3, 2> >("mini<3,2>", false, 0);
#endif
#else
  int l = tier() ? 3 : 2;
#if HWT == 1
  both<double>("double", true, l, 16); exact_strategy<double>("double", true, l);
#elif HWT == 2
  both<float>("float", true, l, 16); exact_strategy<float>("float", true, l);
#else
  both<long double>("long double", true, l, 16);
#endif
  if (HWT == 3) {            // extended registers: operations keep more precision than the type until force_rounding
    int k = median_slack; median_slack = 1;
    arith_policy<xfloat, rounded_arith_std<xfloat> >("xfloat std", true, l, S_STD); arith_policy<xfloat, rounded_arith_opp<xfloat> >("xfloat opp", true, l, S_OPP);
    median_slack = k;
    conv_all<xfloat, rounded_arith_std<xfloat> >("xfloat std", true, S_STD); conv_all<xfloat, rounded_arith_opp<xfloat> >("xfloat opp", true, S_OPP);
  }
  if (HWT == 3) exact_base<Rat>("rational"), exact_base<int>("int");
#endif
}
MC_MAIN
