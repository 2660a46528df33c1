// C20: pi, pi/2 and 2*pi
#include "transc_common.hpp"
#include "../harness/sets.hpp"
#include <boost/numeric/interval/constants.hpp>
using namespace ex;
static const char* cn[3] = {"pi", "pi_half", "pi_twice"};
static const long num[3] = {1, 1, 2}, den[3] = {1, 2, 1};
template<class I> I get(int k) { return k == 0 ? bil::pi<I>() : k == 1 ? bil::pi_half<I>() : bil::pi_twice<I>(); }
template<class T> T lowc(int k) { return k == 0 ? bil::constants::pi_lower<T>() : k == 1 ? bil::constants::pi_half_lower<T>() : bil::constants::pi_twice_lower<T>(); }
template<class T> T upc(int k) { return k == 0 ? bil::constants::pi_upper<T>() : k == 1 ? bil::constants::pi_half_upper<T>() : bil::constants::pi_twice_upper<T>(); }
template<class T> mpq_class exq(const T& v) { if constexpr (std::is_same<T, int>::value || std::is_same<T, Rat>::value) return as_q(v); else return Num<T>::exact(v).q; }
template<class T> void setmode(int m) { Amb<double>::set(m); mini_mode = m; }

// values seen by another global object's constructor, before main
struct Early { float f[2]; double d[2]; Early() { f[0] = bil::pi_half<bn::interval<float> >().lower(); f[1] = bil::pi_half<bn::interval<float> >().upper(); d[0] = bil::pi<bn::interval<double> >().lower(); d[1] = bil::pi<bn::interval<double> >().upper(); } };
static Early early;

template<class I> void suite(const std::string& name, bool hw, bool has_nearest) {
  typedef typename I::base_type T;
  auto desc = [=](u64 s) { return name + " " + cn[s % 3] + (s / 12 ? " (constants::)" : "") + " in mode " + mode_name((s / 3) & 3); };
  mc::add(name, hw, "the three constants, through the functions and the constants namespace, in each ambient rounding mode", 24, [=](u64 s, Ctx& c) {
    int k = s % 3, m = (s / 3) & 3; bool raw = s / 12;
    setmode<T>(m);
    T l, u; if (raw) { l = lowc<T>(k); u = upc<T>(k); } else { I r = get<I>(k); l = r.lower(); u = r.upper(); }
    I p = get<I>(0), h = get<I>(1), t = get<I>(2);
    setmode<T>(0);
    c.hit(); c.outcome(hbits(l) * 31 + hbits(u));
    mpq_class pl = pi_q().first * num[k] / den[k], pu = pi_q().second * num[k] / den[k];
    auto bad = [&](const std::string& w) { c.fail(name + "|" + cn[k], desc(s) + fmtv(": [%.25g, %.25g]: ", exq(l).get_d(), exq(u).get_d()) + w); };
    if (!(exq(l) < pl && pu < exq(u))) { bad("does not contain the constant strictly"); return; }
    if constexpr (std::is_floating_point<T>::value) {
      if constexpr (std::is_same<T, float>::value) { if (std::nextafterf(l, 100) != u) bad("not two adjacent floats"); }
      else if (exq(u) - exq(l) > pow2(-51) * num[k] / den[k]) bad("wider than two adjacent doubles");
      if (exq(h.lower()) * 2 != exq(p.lower()) || exq(h.upper()) * 2 != exq(p.upper()) || exq(p.lower()) * 2 != exq(t.lower()) || exq(p.upper()) * 2 != exq(t.upper())) bad("pi/2, pi and 2*pi are not scaled copies");
    } else {
      mpz_class fl; mpz_fdiv_q(fl.get_mpz_t(), pl.get_num_mpz_t(), pl.get_den_mpz_t());
      if (exq(l) < fl || exq(u) > fl + 1) bad("wider than the two adjacent integers");
    }
    if (!(raweq(get<I>(k).lower(), lowc<T>(k)) && raweq(get<I>(k).upper(), upc<T>(k)))) bad("function and constant differ");
  }, desc);
}
template<class T> struct Many {
  static void add(const std::string& t, bool hw) {
    using namespace bil;
    suite<bn::interval<T, policies<rounded_math<T>, checking_base<T> > > >(t + " base", hw, true);
    suite<bn::interval<T> >(t + " default", hw, true);
    typedef bn::interval<T, policies<save_state<rounded_arith_std<T> >, checking_strict<T> > > S;
    suite<S>(t + " std strict", hw, true);
    suite<typename unprotect<S>::type>(t + " unprotected", hw, true);
  }
};
void register_suites() {
  Many<float>::add("float", true); Many<double>::add("double", true); Many<long double>::add("long double", true);
  suite<bn::interval<int> >("int", true, false); suite<bn::interval<Rat, bil::policies<bil::rounded_math<Rat>, bil::checking_base<Rat> > > >("rational", true, false);
  typedef mini<3, 2> m6; typedef mini<4, 3> m8; Many<m6>::add("mini<3,2>", false); Many<m8>::add("mini<4,3>", false);
  mc::add("during static initialisation", true, "values read by a global object's constructor", 1, [](u64, Ctx& c) { c.hit();
    float f[2] = {bil::constants::pi_half_lower<float>(), bil::constants::pi_half_upper<float>()}; double d[2] = {bil::constants::pi_lower<double>(), bil::constants::pi_upper<double>()};
    if (early.f[0] != f[0] || early.f[1] != f[1] || early.d[0] != d[0] || early.d[1] != d[1]) c.fail("early", fmtv("a global constructor saw pi = [%.20g, %.20g]", early.d[0], early.d[1])); },
    [](u64) { return std::string("pi before main"); });
}
MC_MAIN
