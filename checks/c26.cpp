// C26: the x87 backends (compiled with -mfpmath=387, the x87 control class in place of the C99 one)
#include "powroot_oracle.hpp"
#include "arith_oracle.hpp"
#include "policy_common.hpp"
#include <boost/numeric/interval/detail/x86_rounding_control.hpp>
#include <boost/numeric/interval/ext/x86_fast_rounding_control.hpp>
using namespace bil;
static_assert(std::is_base_of<bil::detail::x86_rounding_control, rounding_control<double> >::value, "x87 backend");

// the x87 direction, whatever SSE says
inline int x87_cw() { unsigned short w; asm volatile("fnstcw %0" : "=m"(w)); return w; }
template<class T> struct XAmb {
  static void set(int m) { static const unsigned short t[4] = {0x137f, 0x177f, 0x1b7f, 0x1f7f}; asm volatile("fldcw %0" : : "m"(t[m & 3])); }
  static int get() { return x87_cw() >> 10 & 3; }
};
template<> struct PAmb<float> : XAmb<float> {};
template<> struct PAmb<double> : XAmb<double> {};
template<> struct PAmb<long double> : XAmb<long double> {};

// interval arithmetic through the backend: bounds tight, control word restored completely
template<class I> void intervals(const std::string& cfg, int level, bool tight) {
  typedef typename I::base_type T;
  auto dp = std::make_shared<Dom<T> >(level);
  pair_suite<I>("intervals/" + cfg, true, fmtv("%s: +, -, *, / of all pairs of the %zu intervals over %d numbers, all ambient modes", cfg.c_str(), dp->iv.size(), dp->n), dp,
    [=](Ctx& c, const Dom<T>& d, P2 a, P2 b, const I& x, const I& y) {
      J<I> j{c, d, a, b, true};
      int cw = x87_cw(); unsigned cs = _mm_getcsr() & 0xffc0;
      auto go = [&](const char* op, const Exp<T>& e, auto f) {
        if (tight) j.tight(op, e, f); else j.encl(op, e, f);
        // judging restores the mode, so look at it again right after the bare operation
        try { I r = f(); (void)r; } catch (...) {}
        int w = x87_cw(); unsigned s2 = _mm_getcsr() & 0xffc0;
        if (w != cw || s2 != cs) { asm volatile("fninit"); std::fesetround(FE_TONEAREST); c.fail(std::string(op) + "|cw", std::string(op) + fmtv(" leaves control word %04x, was %04x", w, cw)); }
      };
      go("x+y", Exp<T>::V(d.L(ADD, a.first, b.first), d.U(ADD, a.second, b.second)), [&] { return x + y; });
      go("x-y", Exp<T>::V(d.L(SUB, a.first, b.second), d.U(SUB, a.second, b.first)), [&] { return x - y; });
      go("x*y", mul_exp(d, a, b), [&] { return x * y; });
      go("x/y", div_exp(d, a, b), [&] { return x / y; });
      if (a == b) {
        go("widen(x,1)", Exp<T>::V(d.L(SUB, a.first, d.one), d.U(ADD, a.second, d.one)), [&] { return widen(x, T(1)); });
        auto rt = [&](int i, bool up) { return d.sgn(i) > 0 ? ex::rnd<T>(ex::rootx(d.x[i], 2), up ? ex::UP : ex::DOWN) : T(0); };
        if (std::is_same<T, long double>::value) // float and double call libm, which uses SSE on x86-64 whatever the x87 mode
          go("sqrt(x)", d.sgn(a.second) < 0 ? Exp<T>::E() : Exp<T>::V(rt(a.first, false), rt(a.second, true)), [&] { return sqrt(x); });
      }
    });
}
template<class T, template<class> class RC> using FastOpp = save_state<rounded_arith_opp<T, RC<T> > >;
template<class T, template<class> class RC> using FastStd = save_state<rounded_arith_std<T, RC<T> > >;
template<class T> void fast(const std::string& t, int level) {
  control_policy<T, x86_fast_rounding_control<T> >(t + " fast x87", true, level);
  scope_policy<T, FastOpp<T, x86_fast_rounding_control>, FastStd<T, x86_fast_rounding_control> >(t + " fast x87", true, tier() ? 7 : 5);
  intervals<bn::interval<T, policies<FastOpp<T, x86_fast_rounding_control>, checking_base<T> > > >(t + " fast opp", level, false);
  intervals<bn::interval<T, policies<FastStd<T, x86_fast_rounding_control>, checking_strict<T> > > >(t + " fast std", level, false);
}
template<class T> void precise(const std::string& t, int level) {
  median_slack = std::is_same<T, long double>::value ? 0 : 1;
  control_policy<T, rounding_control<T> >(t + " x87", true, level);
  arith_policy<T, rounded_arith_std<T> >(t + " x87 std", true, level, S_STD, false);
  arith_policy<T, rounded_arith_opp<T> >(t + " x87 opp", true, level, S_OPP, false);
  conv_all<T, rounded_arith_std<T> >(t + " x87 std", true, S_STD);
  conv_all<T, rounded_arith_opp<T> >(t + " x87 opp", true, S_OPP);
  scope_policy<T, save_state<rounded_arith_opp<T> >, save_state<rounded_arith_std<T> > >(t + " x87", true, tier() ? 7 : 5);
  intervals<IBase<T> >(t + " x87 opp", level, true);
  intervals<IStdStrict<T> >(t + " x87 std strict", level, true);
}
// compiled with optimization: what force_rounding returns is a number of the type, also when it never leaves the register stack
template<class T, class RC> void forced(const std::string& t, int level, bool full) {
  auto d = std::make_shared<Dom<T> >(level); u64 n = d->n;
  auto op = [](int k) { return "+-*/"[k]; };
  mc::add("forced/" + t, true, fmtv("%s: force_rounding of +, -, *, / of all pairs of %d numbers, kept in registers, four modes", t.c_str(), d->n), 16 * n * n, [=](u64 s, Ctx& c) {
    int k = s & 3, m = s >> 2 & 3, i = (s >> 4) / n, j = (s >> 4) % n;
    if (d->x[i].inf || d->x[j].inf || (k == 3 && sgn(d->x[j].q) == 0)) return;
    T x = d->v[i], y = d->v[j]; long double z;
    PAmb<T>::set(m); asm volatile("" : "+m"(x), "+m"(y) : : "memory");
    switch (k) { case 0: z = RC::force_rounding(x + y); break; case 1: z = RC::force_rounding(x - y); break; case 2: z = RC::force_rounding(x * y); break; default: z = RC::force_rounding(x / y); }
    asm volatile("" : "+t"(z) : : "memory"); PAmb<T>::set(0);
    volatile T v = z; c.hit(); c.outcome(k * 4 + m);
    ex::XR a = d->x[i], b = d->x[j], e = k == 0 ? ex::XR(mpq_class(a.q + b.q)) : k == 1 ? ex::XR(mpq_class(a.q - b.q)) : k == 2 ? ex::XR(mpq_class(a.q * b.q)) : ex::XR(mpq_class(a.q / b.q));
    std::string id = t + " " + d->s(i) + " " + op(k) + " " + d->s(j) + ", " + mode_name(m);
    if (full && (long double)v != z) { c.fail(id, "force_rounding(" + id + ") has more digits or range than the type: " + ex::str(z)); return; }
    T lo = ex::rnd<T>(e, ex::DOWN), hi = ex::rnd<T>(e, ex::UP);
    if (m == 1 && v != lo) c.fail(id, id + " gives " + ex::str(T(v)) + ", expected " + ex::str(lo));
    else if (m == 2 && v != hi) c.fail(id, id + " gives " + ex::str(T(v)) + ", expected " + ex::str(hi));
    else if (v < lo || hi < v) c.fail(id, id + " gives " + ex::str(T(v)) + ", which is not next to the exact result");
  }, [=](u64 s) { return "forced/" + t + fmtv(" op %c mode %d ", op(s & 3), int(s >> 2 & 3)) + d->s((s >> 4) / n) + ", " + d->s((s >> 4) % n); });
}
// both integer roundings of one number, in one function
template<class T, class R> __attribute__((noinline)) void ints(T x, T* o) { R r; o[0] = r.int_down(x); o[1] = r.int_up(x); o[2] = r.int_down(x); }
template<class T, class R> void int_both(const std::string& t, int level) {
  auto d = std::make_shared<Dom<T> >(level);
  mc::add("int both/" + t, true, fmtv("%s: int_down, int_up and int_down again of each of %d numbers in one function, four ambient modes", t.c_str(), d->n), 4 * d->n, [=](u64 s, Ctx& c) {
    int m = s & 3, i = s >> 2; if (d->x[i].inf) return;
    T o[3]; PAmb<T>::set(m); ints<T, R>(d->v[i], o); int m2 = PAmb<T>::get(); PAmb<T>::set(0); c.hit(); c.outcome(hbits(o[0]));
    mpz_class lo, hi; mpz_fdiv_q(lo.get_mpz_t(), d->x[i].q.get_num_mpz_t(), d->x[i].q.get_den_mpz_t()); mpz_cdiv_q(hi.get_mpz_t(), d->x[i].q.get_num_mpz_t(), d->x[i].q.get_den_mpz_t());
    ex::XR L{mpq_class(lo)}, U{mpq_class(hi)}; std::string id = t + " " + d->s(i) + ", " + mode_name(m);
    if (m2 != m) c.fail(id, id + ": the ambient mode is now " + mode_name(m2));
    else if (!(ex::Num<T>::exact(o[0]) == L) || !(ex::Num<T>::exact(o[1]) == U) || !(ex::Num<T>::exact(o[2]) == L)) c.fail(id, "int_down, int_up, int_down of " + id + " give " + ex::str(o[0]) + ", " + ex::str(o[1]) + ", " + ex::str(o[2]));
  }, [=](u64 s) { return "int both/" + t + " " + d->s(s >> 2) + " ambient " + mode_name(s & 3); });
}
#ifdef UNIT_OPT
template<class T> void controls(const std::string& t, int level) { control_policy<T, rounding_control<T> >(t + " x87 optimized", true, level); control_policy<T, x86_fast_rounding_control<T> >(t + " fast x87 optimized", true, level);
  int_both<T, FastOpp<T, x86_fast_rounding_control> >(t + " fast opp", level); int_both<T, FastStd<T, x86_fast_rounding_control> >(t + " fast std", level);
  int_both<T, save_state<rounded_arith_opp<T> > >(t + " opp", level); int_both<T, save_state<rounded_arith_std<T> > >(t + " std", level); }
void register_suites() { int l = tier() ? 3 : 2; controls<double>("double", l); controls<float>("float", l); controls<long double>("long double", l); forced<double, rounding_control<double> >("double", l, true); forced<float, rounding_control<float> >("float", l, true); forced<long double, rounding_control<long double> >("long double", l, true); }
#else
void register_suites() {
  int l = tier() ? 3 : 2;
  precise<double>("double", l); precise<float>("float", l); precise<long double>("long double", l);
  fast<double>("double", l); fast<float>("float", l); fast<long double>("long double", l);
}
#endif
MC_MAIN
