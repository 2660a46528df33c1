#pragma once
#include "../harness/dom.hpp"
using mc::Ctx; using mc::fmtv;

// A pair-of-intervals suite: every (x, y) in iv x iv, the ambient rounding mode cycling over all four.
// f(c, d, x, y, X, Y) judges all forms of the operation.
template<class I, class F> void pair_suite(const std::string& name, bool hw, const std::string& bound,
                                           std::shared_ptr<Dom<typename I::base_type> > d, F f) {
  typedef typename I::base_type T;
  u64 N = d->iv.size();
  mc::add(name, hw, bound, N * N,
    [=](u64 s, Ctx& c) {
      std::pair<int, int> a = d->iv[s / N], b = d->iv[s % N];
      Amb<T>::set((s / N + s % N) & 3);
      I x(d->v[a.first], d->v[a.second], true), y(d->v[b.first], d->v[b.second], true);
      f(c, *d, a, b, x, y);
      mini_mode = 0;
    },
    [=](u64 s) { return name + ": x=" + d->s(d->iv[s / N]) + " y=" + d->s(d->iv[s % N]) + " ambient " + mode_name((s / N + s % N) & 3); });
}
template<class I, class F> void one_suite(const std::string& name, bool hw, const std::string& bound,
                                          std::shared_ptr<Dom<typename I::base_type> > d, F f) {
  typedef typename I::base_type T;
  u64 N = d->iv.size();
  mc::add(name, hw, bound, N * 4,
    [=](u64 s, Ctx& c) {
      std::pair<int, int> a = d->iv[s / 4];
      Amb<T>::set(s & 3);
      I x(d->v[a.first], d->v[a.second], true);
      f(c, *d, a, x);
      mini_mode = 0;
    },
    [=](u64 s) { return name + ": x=" + d->s(d->iv[s / 4]) + " ambient " + mode_name(s & 3); });
}

template<class I> struct J {          // judging helper
  typedef typename I::base_type T;
  Ctx& c; const Dom<T>& d; std::pair<int, int> a, b; bool two;
  std::string args() const { return "x=" + d.s(a) + (two ? " y=" + d.s(b) : ""); }
  // exact (tightest) result expected
  template<class F> void tight(const char* op, const Exp<T>& e, F f) const {
    int m = Amb<T>::get();
    Out<T> o = run<I>(f);
    Amb<T>::set(m);
    c.hit(); c.outcome(hbits(o.l) * 31 + hbits(o.u) + o.k);
    if (!agrees<I>(o, e))
      c.fail(std::string(op) + "|" + args(), std::string(op) + " with " + args() + " gives " + o.s() + ", the smallest enclosing interval is " + e.s());
  }
  template<class F> void encl(const char* op, const Exp<T>& e, F f) const {
    int m = Amb<T>::get();
    Out<T> o = run<I>(f);
    Amb<T>::set(m);
    c.hit(); c.outcome(hbits(o.l) * 31 + hbits(o.u) + o.k);
    if (!encloses<I>(o, e))
      c.fail(std::string(op) + "|" + args(), std::string(op) + " with " + args() + " gives " + o.s() + ", which does not enclose " + e.s());
  }
};
