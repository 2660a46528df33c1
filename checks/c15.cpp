// C15: protected, unprotected, std and opp variants compute the same results
#define MINI_TRANSC
#include "../harness/ops.hpp"
using mc::Ctx; using mc::fmtv;

// P: protected type; U1: unprotected once; U2: twice.  Sequences of unprotected operations stay valid because every single one,
// entered in the mode the rounding object establishes, leaves that mode again (checked here for every operation and argument).
template<class T, template<class, class> class RT, template<class> class RA, class C, bool OPP> void suite(const std::string& cfg, bool hw, int level, bool empties, bool few) {
  typedef bil::save_state<RT<T, RA<T> > > R;
  typedef bn::interval<T, bil::policies<R, C> > P;
  typedef typename bil::unprotect<P>::type U1; typedef typename bil::unprotect<U1>::type U2;
  auto sp = std::make_shared<Space<T> >(level, empties, true, few_ks());
  auto ops = std::make_shared<std::vector<Op<P> > >(all_ops<P, true>());
  auto ops1 = std::make_shared<std::vector<Op<U1> > >(all_ops<U1, true>());
  auto ops2 = std::make_shared<std::vector<Op<U2> > >(all_ops<U2, true>());
  bool small = !numlt(T(7), std::numeric_limits<T>::max());
  for (size_t q = 0; q < ops->size(); q++) {
    const Op<P> op = (*ops)[q]; const Op<U1> op1 = (*ops1)[q]; const Op<U2> op2 = (*ops2)[q]; unsigned u = op.uses;
    if (small && ((u & TRANS) || std::string(op.name).substr(0, 2) == "pi")) continue;
    if (few && (u & UX) && (u & UY)) continue;
    std::string name = cfg + " " + op.name;
    mc::add(name, hw, "every combination of operands; protected, unprotected once and twice; the mode inside the rounding scope", sp->size(u), [=](u64 s, Ctx& c) {
      typename Space<T>::Pt p = sp->at(u, s);
      Args<P> a = sp->template make<P>(p);
      Args<U1> a1 = sp->template make<U1>(p); Args<U2> a2 = sp->template make<U2>(p);
      Amb<T>::set(0);
      Call<P> r = call(op, a);
      c.outcome(r.k * 7 + (r.k == VALUE && r.r.t != R_BOOL ? hbits(r.r.t == R_NUM ? r.r.n : r.r.a.lower()) : r.r.q));
      auto bad = [&](const std::string& w) { Amb<T>::set(0); c.fail(name + "|" + sp->s(u, p), std::string(op.name) + " with" + sp->s(u, p) + ": " + w); };
      for (int amb = 0; amb < 4; amb++) {
        Amb<T>::set(amb);
        Call<U1> r1; Call<U2> r2; int in0, in1, in2;
        { R rnd; (void)rnd;
          if (!OPP) Amb<T>::set(amb);                     // the std strategy requires no particular mode
          in0 = Amb<T>::get();
          r1 = call(op1, a1); in1 = Amb<T>::get();
          if (!OPP) Amb<T>::set(amb);
          r2 = call(op2, a2); in2 = Amb<T>::get();
        }
        int after = Amb<T>::get();
        c.hit();
        if (after != amb) { bad(fmtv("the rounding object leaves mode %s, was %s", mode_name(after), mode_name(amb))); return; }
        if (OPP && (in0 != 2 || in1 != 2 || in2 != 2)) { bad(fmtv("the mode inside the scope must stay upward: %s, %s, %s", mode_name(in0), mode_name(in1), mode_name(in2))); return; }
        Amb<T>::set(0);
        if (r1.k != r.k || (r.k == VALUE && !same_res(r1.r, r.r))) { bad("protected " + show_call(r) + ", unprotected " + show_call(r1) + " (started in " + mode_name(amb) + ")"); return; }
        if (r2.k != r.k || (r.k == VALUE && !same_res(r2.r, r.r))) { bad("protected " + show_call(r) + ", unprotected twice " + show_call(r2) + " (started in " + mode_name(amb) + ")"); return; }
        if (amb < 3) { a1 = sp->template make<U1>(p); a2 = sp->template make<U2>(p); }
      }
      Amb<T>::set(0);
    }, [=](u64 s) { return name + ":" + sp->s(u, sp->at(u, s)); });
  }
}
// std against opp
template<class T, class C> void versus(const std::string& cfg, bool hw, int level, bool empties, bool few, bool transc) {
  typedef bn::interval<T, bil::policies<bil::save_state<bil::rounded_transc_std<T> >, C> > P;
  typedef bn::interval<T, bil::policies<bil::save_state<bil::rounded_transc_opp<T> >, C> > Q;
  auto sp = std::make_shared<Space<T> >(level, empties, true, few_ks());
  auto ops = std::make_shared<std::vector<Op<P> > >(all_ops<P, true>()); auto ops1 = std::make_shared<std::vector<Op<Q> > >(all_ops<Q, true>());
  bool small = !numlt(T(7), std::numeric_limits<T>::max());
  for (size_t q = 0; q < ops->size(); q++) {
    const Op<P> op = (*ops)[q]; const Op<Q> op1 = (*ops1)[q]; unsigned u = op.uses;
    if ((!transc || small) && ((u & TRANS) || std::string(op.name).substr(0, 2) == "pi")) continue;
    if (few && (u & UX) && (u & UY)) continue;
    std::string name = cfg + " std/opp " + op.name;
    mc::add(name, hw, "every combination of operands, std strategy against opp strategy", sp->size(u), [=](u64 s, Ctx& c) {
      typename Space<T>::Pt p = sp->at(u, s);
      Args<P> a = sp->template make<P>(p); Args<Q> b = sp->template make<Q>(p);
      Call<P> r = call(op, a); Amb<T>::set(0); Call<Q> r1 = call(op1, b); Amb<T>::set(0);
      c.hit(); c.outcome(r.k * 7 + (r.k == VALUE && r.r.t != R_BOOL ? hbits(r.r.t == R_NUM ? r.r.n : r.r.a.lower()) : r.r.q));
      if (r1.k != r.k || (r.k == VALUE && !same_res(r1.r, r.r))) c.fail(name + "|" + sp->s(u, p), std::string(op.name) + " with" + sp->s(u, p) + ": std " + show_call(r) + ", opp " + show_call(r1));
    }, [=](u64 s) { return name + ":" + sp->s(u, sp->at(u, s)); });
  }
}
// The rounding object's own functions inside one scope: g after f gives what g gives alone, whatever f was; under opp the mode is upward throughout.
template<class PO, class T> std::vector<std::pair<const char*, T (*)(PO&, const T&, const T&)> > fns() {
  std::vector<std::pair<const char*, T (*)(PO&, const T&, const T&)> > v;
#define FN1(n) v.push_back({#n, [](PO& p, const T& x, const T&) { return T(p.n(x)); }});
#define FN2(n) v.push_back({#n, [](PO& p, const T& x, const T& y) { return T(p.n(x, y)); }});
#define FB(n) FN1(n##_down) FN1(n##_up)
  FN2(add_down) FN2(add_up) FN2(sub_down) FN2(sub_up) FN2(mul_down) FN2(mul_up) FN2(div_down) FN2(div_up) FN2(median)
  FB(conv) FB(sqrt) FB(int) FB(exp) FB(log) FB(sin) FB(cos) FB(tan) FB(asin) FB(acos) FB(atan) FB(sinh) FB(cosh) FB(tanh) FB(asinh) FB(acosh) FB(atanh)
#undef FN1
#undef FN2
#undef FB
  return v;
}
template<class T, class RO, bool OPP> void sequences(const std::string& t, bool hw, int menu) {
  typedef bil::save_state<RO> R; typedef T (*F)(R&, const T&, const T&);
  auto f = std::make_shared<std::vector<std::pair<const char*, F> > >(fns<R, T>());
  std::vector<T> all = Alpha<T>::get(0), fin; for (auto& x : all) if (isfin(x)) fin.push_back(x);
  auto v = std::make_shared<std::vector<T> >(); 
  for (T x : {T(0.5), T(1), T(3)}) v->push_back(x);
  for (int i = 0; i < menu; i++) v->push_back(fin[(size_t)i * (fin.size() - 1) / (menu > 1 ? menu - 1 : 1)]);
  u64 n = v->size(), N = f->size();
  // what each function gives on its own, in a fresh scope
  auto alone = std::make_shared<std::vector<T> >(N * n * n);
  for (u64 k = 0; k < N; k++) for (u64 i = 0; i < n * n; i++) { Amb<T>::set(0); { R r; (*alone)[k * n * n + i] = (*f)[k].second(r, (*v)[i / n], (*v)[i % n]); } Amb<T>::set(0); }
  std::string name = "sequence " + t;
  auto desc = [=](u64 s) { u64 b = s % (n * n), q = s / (n * n), a = q % (n * n); q /= n * n; return fmtv("%s: %s(%s, %s) then %s(%s, %s)", name.c_str(), (*f)[q / N].first, show((*v)[a / n]).c_str(), show((*v)[a % n]).c_str(), (*f)[q % N].first, show((*v)[b / n]).c_str(), show((*v)[b % n]).c_str()); };
  mc::add(name, hw, fmtv("every two of the %d rounding functions one after the other inside one scope, every operand from a menu of %d numbers, started in each mode", (int)N, (int)n), N * N * n * n * n * n, [=](u64 s, Ctx& c) {
    u64 b = s % (n * n), q = s / (n * n), a = q % (n * n); q /= n * n; u64 k1 = q / N, k2 = q % N;
    const T& want = (*alone)[k2 * n * n + b];
    for (int amb = 0; amb < 4; amb++) {
      Amb<T>::set(amb); T g; int m1, m2, after;
      { R r; (void)(*f)[k1].second(r, (*v)[a / n], (*v)[a % n]); m1 = Amb<T>::get(); g = (*f)[k2].second(r, (*v)[b / n], (*v)[b % n]); m2 = Amb<T>::get(); }
      after = Amb<T>::get(); Amb<T>::set(0); c.hit(); c.outcome(hbits(g));
      auto bad = [&](const std::string& w) { c.fail(name + "|" + (*f)[k1].first + "|" + (*f)[k2].first, desc(s) + ": " + w); };
      if (after != amb) { bad(fmtv("the scope leaves mode %s, was %s", mode_name(after), mode_name(amb))); return; }
      if (OPP && (m1 != 2 || m2 != 2)) { bad(fmtv("the mode inside the scope must stay upward: %s, %s", mode_name(m1), mode_name(m2))); return; }
      if (isnum(g) != isnum(want) || (isnum(g) && !numeq(g, want))) { bad("the second gives " + show(g) + ", alone " + show(want)); return; }
    }
  }, desc);
}
template<class T> void seqs(const std::string& t, bool hw, int menu) {
  sequences<T, bil::rounded_transc_opp<T, bil::rounded_arith_opp<T> >, true>(t + " opp", hw, menu);
  sequences<T, bil::rounded_transc_std<T, bil::rounded_arith_std<T> >, false>(t + " std", hw, menu);
}
template<class T> void all(const std::string& t, bool hw, int l) {
  using namespace bil;
  suite<T, rounded_transc_opp, rounded_arith_opp, checking_base<T>, true>(t + " opp", hw, l, true, false);
  suite<T, rounded_transc_std, rounded_arith_std, checking_base<T>, false>(t + " std", hw, l, true, false);
  versus<T, checking_base<T> >(t, hw, l, true, false, !hw);
}
void register_suites() {
  using namespace bil;
#ifdef UNIT_MINI
  all<mini<2, 2> >("mini<2,2>", false, 0);
  seqs<mini<2, 2> >("mini<2,2>", false, tier() ? 6 : 3);
  seqs<mini<3, 2> >("mini<3,2>", false, tier() ? 6 : 3);
  typedef mini<3, 2> m6; bool few = !tier();
  suite<m6, rounded_transc_opp, rounded_arith_opp, checking_strict<m6>, true>("mini<3,2> opp strict", false, 0, false, few);
  suite<m6, rounded_transc_std, rounded_arith_std, checking_base<m6>, false>("mini<3,2> std", false, 0, true, few);
  versus<m6, checking_base<m6> >("mini<3,2>", false, 0, true, few, true);
#else
  int l = tier() ? 1 : 0;
  all<double>("double", true, l);
  all<float>("float", true, l);
  seqs<double>("double", true, tier() ? 6 : 3); seqs<float>("float", true, tier() ? 6 : 3); seqs<long double>("long double", true, tier() ? 6 : 3);
  suite<long double, rounded_transc_opp, rounded_arith_opp, checking_strict<long double>, true>("long double opp strict", true, l, false, false);
  suite<double, rounded_transc_opp, rounded_arith_opp, checking_base<double>, true>("double opp wide", true, 10, false, true);
  suite<double, rounded_transc_std, rounded_arith_std, checking_base<double>, false>("double std wide", true, 10, false, true);
  versus<double, checking_base<double> >("double wide", true, 10, false, true, false);
  if (tier()) all<long double>("long double", true, 1);
#endif
}
MC_MAIN
