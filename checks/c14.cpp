// C14: every operation restores the caller's rounding mode and its result does not depend on it
#define MINI_TRANSC
#include "../harness/ops.hpp"
using mc::Ctx; using mc::fmtv;

template<class T, class R, class C> void suite(const std::string& cfg, bool hw, int level, bool empties = true, bool few = false) {
  typedef bn::interval<T, bil::policies<R, C> > I;
  auto sp = std::make_shared<Space<T> >(level, empties, true, few_ks());
  auto ops = std::make_shared<std::vector<Op<I> > >(all_ops<I, true>());
  bool small = !numlt(T(7), std::numeric_limits<T>::max());
  for (size_t q = 0; q < ops->size(); q++) {
    const Op<I> op = (*ops)[q]; unsigned u = op.uses;
    if (small && ((u & TRANS) || std::string(op.name).substr(0, 2) == "pi")) continue;     // the type cannot hold 2*pi
    if (few && (u & UX) && (u & UY)) continue;
    std::string name = cfg + " " + op.name;
    mc::add(name, hw, "every combination of operands, each in all four ambient rounding modes", sp->size(u), [=](u64 s, Ctx& c) {
      typename Space<T>::Pt p = sp->at(u, s);
      Call<I> ref; Amb<T>::set(0);
      for (int m = 0; m < 4; m++) {
        Args<I> a = sp->template make<I>(p);
        Amb<T>::set(m);
        Call<I> r = call(op, a);
        int after = Amb<T>::get(); Amb<T>::set(0);
        c.hit();
        if (after != m) { c.fail(name + "|mode|" + sp->s(u, p), std::string(op.name) + " with" + sp->s(u, p) + ": entered in mode " + mode_name(m) + ", left in mode " + mode_name(after) + " (" + show_call(r) + ")"); return; }
        if (m == 0) { ref = r; c.outcome(r.k * 7 + (r.k == VALUE && r.r.t != R_BOOL ? hbits(r.r.t == R_NUM ? r.r.n : r.r.a.lower()) : r.r.q)); }
        else if (!same_call(r, ref)) { c.fail(name + "|dep|" + sp->s(u, p), std::string(op.name) + " with" + sp->s(u, p) + ": " + show_call(ref) + " in mode to-nearest but " + show_call(r) + " in mode " + mode_name(m)); return; }
      }
    }, [=](u64 s) { return name + ":" + sp->s(u, sp->at(u, s)); });
  }
}
template<class T> void both(const std::string& t, bool hw, int level) {
  using namespace bil;
  suite<T, save_state<rounded_transc_opp<T> >, checking_base<T> >(t + " opp base", hw, level);
  suite<T, save_state<rounded_transc_std<T> >, checking_base<T> >(t + " std base", hw, tier() || level == 0 ? level : level - 1);
}
void register_suites() {
  using namespace bil;
#ifdef UNIT_MINI
  both<mini<2, 2> >("mini<2,2>", false, 0);
  typedef mini<3, 2> m6;
  suite<m6, save_state<rounded_transc_opp<m6> >, checking_catch_nan<m6, checking_no_empty<m6> > >("mini<3,2> opp catch_nan<no_empty>", false, 0, false, !tier());
  suite<m6, save_state<rounded_transc_std<m6> >, checking_base<m6> >("mini<3,2> std base", false, 0, true, !tier());
  if (tier()) suite<m6, save_state<rounded_transc_opp<m6> >, checking_base<m6> >("mini<3,2> opp base", false, 0);
#else
  int l = tier() ? 2 : 1;
  both<double>("double", true, l);
  suite<double, save_state<rounded_transc_opp<double> >, checking_strict<double> >("double opp strict", true, l - 1, false);
  suite<double, save_state<rounded_transc_std<double> >, checking_catch_nan<double, checking_no_empty<double> > >("double std catch_nan<no_empty>", true, l - 1, false);
  suite<double, save_state<rounded_transc_std<double> >, checking_base<double> >("double std base wide", true, 10, false, !tier());
  suite<double, save_state<rounded_transc_opp<double> >, checking_base<double> >("double opp base wide", true, 10, false, !tier());
  suite<float, save_state<rounded_transc_opp<float> >, checking_strict<float> >("float opp strict wide", true, 10, false, true);
  both<float>("float", true, l - 1);
  both<long double>("long double", true, l - 1);
#endif
}
MC_MAIN
