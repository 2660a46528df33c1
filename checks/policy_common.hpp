// The rounding-policy layer: every *_down/*_up operation of a policy object against exact directed rounding.
#pragma once
#include "transc_common.hpp"
#include <climits>
#include <set>

// strategy: how the policy treats the mode.  any: may be entered in any mode; up: entered and left upward.
enum Strat { S_STD, S_OPP };
template<class T> struct PAmb : Amb<T> {};          // how the mode the policy works with is read and set (specialised for x87)
inline int median_slack = 0;                        // steps allowed on median (double rounding on x87)

template<class T, class PO> struct PJ {
  Ctx& c; const std::string& cfg; Strat st; int entry;
  template<class F, class A> bool val(const char* op, const A& args, const T& want, F f, int slack = 0) const {
    std::fesetround(FE_TONEAREST); PAmb<T>::set(entry);
    PO p; T r = f(p);
    int after = PAmb<T>::get(); PAmb<T>::set(0);
    c.hit(); c.outcome(hbits(r));
    bool ok = slack ? isnum(r) && !numlt(r, steps(want, -slack)) && !numlt(steps(want, slack), r) : isnum(r) && numeq(r, want);
    if (!ok) { std::string a = args(); c.fail(cfg + "|" + op + "|" + a, cfg + " " + op + "(" + a + ") entered in mode " + mode_name(entry) + " gives " + (isnum(r) ? ex::str(r) : "NaN") + ", expected " + ex::str(want)); return false; }
    if (st == S_OPP && after != 2) { std::string a = args(); c.fail(cfg + "|mode|" + op + "|" + a, cfg + " " + op + "(" + a + ") leaves mode " + mode_name(after) + " instead of upward"); return false; }
    return true;
  }
};
template<class T, class PO> void arith_policy(const std::string& cfg, bool hw, int level, Strat st, bool withsqrt = true) {
  auto d = std::make_shared<Dom<T> >(level);
  u64 n = d->n, M = st == S_STD ? 4 : 1; int mslack = median_slack;
  mc::add("arith/" + cfg, hw, fmtv("%s: add, sub, mul, div, median on every pair of the %d numbers, every permitted entry mode", cfg.c_str(), d->n), n * n * M, [=](u64 s, Ctx& c) {
    int i = s / M / n, j = s / M % n, m = st == S_STD ? s % M : 2;
    const T &x = d->v[i], &y = d->v[j];
    PJ<T, PO> p{c, cfg, st, m};
    auto args = [&] { return d->s(i) + ", " + d->s(j); };
    static const char* dn[] = {"add_down", "sub_down", "mul_down", "div_down"}; static const char* un[] = {"add_up", "sub_up", "mul_up", "div_up"};
    for (int op = 0; op < NOPS; op++) {
      if (!d->H(op, i, j)) continue;
      if (op == MUL && (!d->fin(i) || !d->fin(j)) && (d->sgn(i) == 0 || d->sgn(j) == 0)) continue;   // 0 * inf: the library never asks
      p.val(dn[op], args, d->L(op, i, j), [&](PO& o) { return op == ADD ? o.add_down(x, y) : op == SUB ? o.sub_down(x, y) : op == MUL ? o.mul_down(x, y) : o.div_down(x, y); });
      p.val(un[op], args, d->U(op, i, j), [&](PO& o) { return op == ADD ? o.add_up(x, y) : op == SUB ? o.sub_up(x, y) : op == MUL ? o.mul_up(x, y) : o.div_up(x, y); });
    }
    if (d->fin(i) && d->fin(j) && d->x[i] <= d->x[j]) {
      // correctly rounded midpoint; in the subnormal range x/2+y/2 and x+y agree, so the exact value decides
      ex::XR mid(mpq_class((d->x[i].q + d->x[j].q) / 2));
      p.val("median", args, ex::rnd<T>(mid, ex::NEAR), [&](PO& o) { return o.median(x, y); }, mslack);
    }
  }, [=](u64 s) { return "arith/" + cfg + ": " + d->s(s / M / n) + ", " + d->s(s / M % n); });
  mc::add("unary/" + cfg, hw, fmtv("%s: sqrt, int_down, int_up, conv from the same type on every number, every permitted entry mode", cfg.c_str()), n * M, [=](u64 s, Ctx& c) {
    int i = s / M, m = st == S_STD ? s % M : 2; const T& x = d->v[i];
    PJ<T, PO> p{c, cfg, st, m};
    auto args = [&] { return d->s(i); };
    if (withsqrt && d->sgn(i) >= 0) {
      ex::XR r = ex::rootx(d->x[i], 2);
      p.val("sqrt_down", args, ex::rnd<T>(r, ex::DOWN), [&](PO& o) { return o.sqrt_down(x); });
      p.val("sqrt_up", args, ex::rnd<T>(r, ex::UP), [&](PO& o) { return o.sqrt_up(x); });
    }
    ex::XR f = d->x[i], g = d->x[i];
    if (!f.inf) { mpz_class z; mpz_fdiv_q(z.get_mpz_t(), f.q.get_num_mpz_t(), f.q.get_den_mpz_t()); f = ex::XR(mpq_class(z)); mpz_cdiv_q(z.get_mpz_t(), g.q.get_num_mpz_t(), g.q.get_den_mpz_t()); g = ex::XR(mpq_class(z)); }
    p.val("int_down", args, ex::rnd<T>(f, ex::DOWN), [&](PO& o) { return o.int_down(x); });
    p.val("int_up", args, ex::rnd<T>(g, ex::UP), [&](PO& o) { return o.int_up(x); });
    p.val("conv_down", args, x, [&](PO& o) { return o.conv_down(x); });
    p.val("conv_up", args, x, [&](PO& o) { return o.conv_up(x); });
  }, [=](u64 s) { return "unary/" + cfg + ": " + d->s(s / M); });
}
template<class U> struct ExactOf { static ex::XR get(const U& u) { return ex::Num<U>::exact(u); } };
#define EXINT(U) template<> struct ExactOf<U> { static ex::XR get(const U& u) { mpq_class q; if (u < 0) { mpz_set_ui(q.get_num_mpz_t(), 0ul - (unsigned long)u); q = -q; } else mpz_set_ui(q.get_num_mpz_t(), (unsigned long)u); return ex::XR(q); } };
EXINT(int) EXINT(unsigned) EXINT(long) EXINT(unsigned long) EXINT(short) EXINT(unsigned short) EXINT(signed char)
#undef EXINT
template<class U> std::vector<U> conv_vals() {
  if constexpr (std::is_integral<U>::value) {
    std::set<U> s; typedef std::numeric_limits<U> L;
    for (int i = -20; i <= 20; i++) if (L::is_signed || i >= 0) s.insert((U)i);
    for (int e = 1; e < L::digits; e++) for (int k : {-1, 0, 1}) { U b = (U)(U(1) << e); s.insert((U)(b + k)); s.insert((U)(b + b / 2 + k)); if (L::is_signed) { s.insert((U)(-b + k)); } }
    s.insert(L::max()); s.insert(L::min()); s.insert((U)(L::max() / 3));
    return std::vector<U>(s.begin(), s.end());
  } else return Alpha<U>::get(2);
}
template<class T, class PO, class U> void conv_policy(const std::string& cfg, const char* un, bool hw, Strat st) {
  auto v = std::make_shared<std::vector<U> >(conv_vals<U>()); u64 M = st == S_STD ? 4 : 1;
  std::string name = "conv/" + cfg + " from " + un;
  mc::add(name, hw, fmtv("%s: conv_down and conv_up of %zu values of type %s, every permitted entry mode", cfg.c_str(), v->size(), un), v->size() * M, [=](u64 s, Ctx& c) {
    const U u = (*v)[s / M]; PJ<T, PO> p{c, cfg, st, (int)(st == S_STD ? s % M : 2)};
    ex::XR e = ExactOf<U>::get(u);
    auto args = [&] { std::ostringstream o; o.precision(21); o << un << " " << u; return o.str(); };
    p.val("conv_down", args, ex::rnd<T>(e, ex::DOWN), [&](PO& o) { return o.conv_down(u); });
    p.val("conv_up", args, ex::rnd<T>(e, ex::UP), [&](PO& o) { return o.conv_up(u); });
  }, [=](u64 s) { std::ostringstream o; o.precision(21); o << name << " " << (*v)[s / M]; return o.str(); });
}
template<class T, class PO> void conv_all(const std::string& cfg, bool hw, Strat st) {
  conv_policy<T, PO, int>(cfg, "int", hw, st); conv_policy<T, PO, unsigned>(cfg, "unsigned", hw, st); conv_policy<T, PO, long>(cfg, "long", hw, st); conv_policy<T, PO, unsigned long>(cfg, "unsigned long", hw, st);
  conv_policy<T, PO, short>(cfg, "short", hw, st); conv_policy<T, PO, float>(cfg, "float", hw, st); conv_policy<T, PO, double>(cfg, "double", hw, st); conv_policy<T, PO, long double>(cfg, "long double", hw, st);
}
static const std::vector<int> ALLFN = {ex::F_EXP, ex::F_LOG, ex::F_SIN, ex::F_COS, ex::F_TAN, ex::F_ASIN, ex::F_ACOS, ex::F_ATAN, ex::F_SINH, ex::F_COSH, ex::F_TANH, ex::F_ASINH, ex::F_ACOSH, ex::F_ATANH};
template<class T, class PO> T trans_call(PO& o, int f, bool up, const T& x) {
  switch (f) {
#define TC(F, n) case ex::F: return up ? o.n##_up(x) : o.n##_down(x);
  TC(F_EXP, exp) TC(F_LOG, log) TC(F_SIN, sin) TC(F_COS, cos) TC(F_TAN, tan) TC(F_ASIN, asin) TC(F_ACOS, acos) TC(F_ATAN, atan) TC(F_SINH, sinh) TC(F_COSH, cosh) TC(F_TANH, tanh) TC(F_ASINH, asinh) TC(F_ACOSH, acosh) default: TC(F_ATANH, atanh)
#undef TC
  }
}
// tol = 0: the functions the policy calls are correctly rounded in the mode in force
template<class T, class PO> void transc_policy(const std::string& cfg, bool hw, int level, Strat st, int tol) {
  auto d = std::make_shared<TDom<T> >(level, ALLFN); u64 n = d->n, M = st == S_STD ? 4 : 1;
  for (int f : ALLFN) {
    if (tol && std::is_same<T, long double>::value && (f == ex::F_ASINH || f == ex::F_ACOSH || f == ex::F_ATANH)) continue;      // computed in double on this platform
    std::string name = "transc/" + cfg + " " + ex::fn_name(f);
    mc::add(name, hw, fmtv("%s: every elementary function on every number in its domain, every permitted entry mode", cfg.c_str()), n * M, [=](u64 s, Ctx& c) {
      int i = s / M; const T& x = d->v[i]; PJ<T, PO> p{c, cfg, st, (int)(st == S_STD ? s % M : 2)};
      if (d->fv[f][i].nan) return;
      if (!d->fin(i) && (f == ex::F_SIN || f == ex::F_COS || f == ex::F_TAN)) return;
      if (f == ex::F_LOG && d->sgn(i) == 0) return;
      auto args = [&] { return d->s(i); };
      p.val((std::string(ex::fn_name(f)) + "_down").c_str(), args, d->flo[f][i], [&](PO& o) { return trans_call<T, PO>(o, f, false, x); }, tol);
      p.val((std::string(ex::fn_name(f)) + "_up").c_str(), args, d->fhi[f][i], [&](PO& o) { return trans_call<T, PO>(o, f, true, x); }, tol);
    }, [=](u64 s) { return name + " " + d->s(s / M); });
  }
}
// Scopes: every sequence (up to a depth) of {enter protected, enter unprotected, enter std, compute, throw through, leave} keeps the discipline:
// leaving a protected scope restores the mode found at its entry, inside an opp scope the mode is upward, and every computation is correctly directed.
template<class T, class OPP, class STD> struct PRun {
  Ctx& c; const std::string& name; u64 prog; int left; T third;
  typedef typename OPP::unprotected_rounding UOPP; typedef typename STD::unprotected_rounding USTD;
  int next() { if (!left) return 4; left--; int k = prog % 7; prog /= 7; return k; }
  template<class R> void compute(const std::string& where, R& r, int need) {
    T x(1), y(3); launder(x); launder(y);
    int m = PAmb<T>::get();
    T lo = r.div_down(x, y), up = r.div_up(x, y);
    c.hit();
    T el = ex::rnd<T>(ex::XR(mpq_class(1, 3)), ex::DOWN), eu = ex::rnd<T>(ex::XR(mpq_class(1, 3)), ex::UP);
    int after = PAmb<T>::get();
    if (!numeq(lo, el) || !numeq(up, eu)) c.fail(name + "|compute|" + where, "1/3 inside " + where + " gives [" + ex::str(lo) + ", " + ex::str(up) + "] (mode was " + mode_name(m) + ")");
    if (need == 2 && after != 2) c.fail(name + "|mode|" + where, "a computation inside " + where + " leaves mode " + mode_name(after));
  }
  // kind: 0 top, 1 opp, 2 std; returns true when a leave was executed
  void block(int kind, int lvl) {
    for (;;) {
      int k = next(); int m = PAmb<T>::get();
      if (k == 4 || lvl > 6) return;
      if (k == 5) throw 1;
      if (k == 6) { if (kind != 1) PAmb<T>::set(1); continue; }
      if (k == 3) { if (kind == 1) { UOPP r; compute("an opp scope", r, 2); } else if (kind == 2) { USTD r; compute("a std scope", r, 0); } else { OPP r; compute("a protected object", r, 2); } continue; }
      if (k == 2) { if (kind == 0) continue; if (kind == 1) { UOPP r; if (PAmb<T>::get() != m) c.fail(name + "|unprot", "an unprotected rounding object changes the mode"); block(1, lvl + 1); } else { USTD r; if (PAmb<T>::get() != m) c.fail(name + "|unprot", "an unprotected rounding object changes the mode"); block(2, lvl + 1); } continue; }
      bool thrown = false;
      try { if (k == 0) { OPP r; if (PAmb<T>::get() != 2) c.fail(name + "|in", "inside an opp scope the mode is not upward"); block(1, lvl + 1); } else { STD r; block(2, lvl + 1); } }
      catch (int) { thrown = true; }
      c.outcome(m * 8 + k * 2 + thrown);
      int after = PAmb<T>::get();
      if (after != m) { c.fail(name + fmtv("|restore|%d|%d", k, m), std::string("leaving a protected ") + (k == 0 ? "opp" : "std") + " scope" + (thrown ? " by an exception" : "") + " gives mode " + mode_name(after) + ", it was entered in mode " + mode_name(m)); return; }
    }
  }
};
template<class T, class OPP, class STD> void scope_policy(const std::string& cfg, bool hw, int depth) {
  static const char* nm[] = {"enter opp", "enter std", "enter unprotected", "compute", "leave", "throw", "user sets downward"}; const int K = 7;
  u64 P = 1; for (int i = 0; i < depth; i++) P *= K;
  std::string name = "scopes/" + cfg;
  mc::add(name, hw, fmtv("%s: every program of %d steps from {enter opp, enter std, enter unprotected, compute, leave, throw, set downward}, from every ambient mode", cfg.c_str(), depth), P * 4, [=](u64 s, Ctx& c) {
    std::fesetround(FE_TONEAREST); PAmb<T>::set(s & 3);
    PRun<T, OPP, STD> r{c, name, s / 4, depth, T(0)};
    try { r.block(0, 0); } catch (int) {}
    PAmb<T>::set(0);
  }, [=](u64 s) { std::string r = name + " ambient " + mode_name(s & 3) + ":"; u64 p = s / 4; for (int i = 0; i < depth; i++) { r += std::string(" ") + nm[p % K] + ";"; p /= K; } return r; });
}
// The control object: every transition between modes, and what arithmetic, force_rounding and to_int then do.
template<class T> struct HasTowardZero { static const bool value = true; };
template<class T, class RC> void control_policy(const std::string& cfg, bool hw, int level) {
  auto d = std::make_shared<Dom<T> >(level); u64 n = d->n; std::string name = "control/" + cfg;
  mc::add(name, hw, fmtv("%s: every pair (mode before, mode requested), saving and restoring, quotients and integer rounding of every number", cfg.c_str()), 16 * n, [=](u64 s, Ctx& c) {
    int m0 = s & 3, m1 = s >> 2 & 3, i = s >> 4; RC rc; typename RC::rounding_mode saved;
    std::fesetround(FE_TONEAREST); PAmb<T>::set(m0);
    auto bad = [&](const std::string& w) { std::fesetround(FE_TONEAREST); PAmb<T>::set(0); c.fail(name + fmtv("|%d|%d|", m0, m1) + w.substr(0, 20) + d->s(i), name + " from mode " + mode_name(m0) + " to mode " + mode_name(m1) + " with " + d->s(i) + ": " + w); };
    rc.get_rounding_mode(saved);
    if (m1 == 0) rc.to_nearest(); else if (m1 == 1) rc.downward(); else if (m1 == 2) rc.upward(); else rc.toward_zero();
    c.hit(); if (PAmb<T>::get() != m1) { bad(std::string("the mode is now ") + mode_name(PAmb<T>::get())); return; }
    T x = d->v[i], three(3), q; launder(x); launder(three);
    T r0 = x / three; launder(r0); q = rc.force_rounding(r0); launder(q);
    T r = rc.to_int(x); launder(r);
    if (PAmb<T>::get() != m1) { bad("force_rounding or to_int changes the mode"); return; }
    typename RC::rounding_mode cur; rc.get_rounding_mode(cur); rc.to_nearest(); rc.set_rounding_mode(cur);
    if (PAmb<T>::get() != m1) { bad("set_rounding_mode(get_rounding_mode()) is not the same mode"); return; }
    rc.set_rounding_mode(saved);
    if (PAmb<T>::get() != m0) { bad("set_rounding_mode does not restore the saved mode"); return; }
    std::fesetround(FE_TONEAREST); PAmb<T>::set(0);
    c.outcome(hbits(q));
    T e = ex::rnd<T>(ex::div(d->x[i], ex::XR(3L)), (ex::Dir)m1);
    if (!numeq(q, e)) { bad("x/3 gives " + ex::str(q) + ", expected " + ex::str(e)); return; }
    ex::XR f = d->x[i];
    if (!f.inf) { ex::Rnd z = ex::round_to(ex::Fmt{20000, 0, 20000}, f, (ex::Dir)m1); mpq_class v = mpq_class(z.m) * ex::pow2(z.e); f = ex::XR(z.neg ? mpq_class(-v) : v); }
    T w = ex::rnd<T>(f, (ex::Dir)m1);
    if (!numeq(r, w)) bad("to_int gives " + ex::str(r) + ", expected " + ex::str(w));
  }, [=](u64 s) { return name + " from " + mode_name(s & 3) + " to " + mode_name(s >> 2 & 3) + " with " + d->s(s >> 4); });
}
