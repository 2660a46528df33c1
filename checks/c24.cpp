// C24: mixed interval/int arithmetic
#include "arith_oracle.hpp"
#include <boost/numeric/interval/ext/integer.hpp>
#include <climits>
#include <set>

template<class T> bool exact_int(int k) { ex::XR x = ex::XR(mpq_class(k)); ex::Rnd r = ex::round_to(ex::Num<T>::fmt(), x, ex::DOWN), s = ex::round_to(ex::Num<T>::fmt(), x, ex::UP);
  return !r.inf && !s.inf && ex::Num<T>::exact(ex::Num<T>::make(r)) == x && ex::Num<T>::exact(ex::Num<T>::make(s)) == x; }
template<class T> std::vector<int> ints(int range) {
  std::set<long> s;
  for (int i = -range; i <= range; i++) s.insert(i);
  for (int e = 4; e <= 31; e++) for (int d = -1; d <= 1; d++) { s.insert((1l << e) + d); s.insert(-(1l << e) + d); s.insert((3l << e) / 2 + d); }
  s.insert(INT_MIN); s.insert(INT_MAX); s.insert(INT_MAX - 127); s.insert(1000000007);
  std::vector<int> r;
  for (long v : s) if (v >= INT_MIN && v <= INT_MAX && exact_int<T>((int)v)) r.push_back((int)v);
  return r;
}
template<class I> void suite(const std::string& cfg, bool hw, int level, int range) {
  typedef typename I::base_type T;
  auto ks = std::make_shared<std::vector<int> >(ints<T>(range));
  std::vector<T> base = Alpha<T>::get(level), vals = base;
  for (int k : *ks) vals.push_back(ex::rnd<T>(ex::XR(mpq_class(k)), ex::DOWN));
  // one domain over the alphabet and the integers; intervals over the alphabet only
  auto d = std::make_shared<Dom<T> >(vals, true);
  auto iv = std::make_shared<std::vector<P2> >();
  for (auto& p : d->iv) if (p.first < (int)base.size() && p.second < (int)base.size()) iv->push_back(p);
  d->zero = d->zero;
  u64 N = iv->size(), K = ks->size(); int off = base.size();
  std::string name = "int/" + cfg;
  mc::add(name, hw, fmtv("%s: every interval over %zu numbers (and the empty interval), %zu ints exactly representable in the base type", cfg.c_str(), base.size(), ks->size()), (N + 1) * K,
    [=](u64 s, Ctx& c) {
      int k = (*ks)[s % K]; u64 q = s / K; P2 b(off + s % K, off + s % K);
      if (q == N) {
        if (Strict<I>::value) return;
        I e = I::empty();
        I r[8] = {e + k, k + e, e - k, k - e, e * k, k * e, e / k, k / e};
        for (int i = 0; i < 8; i++) { c.hit(); if (outcome_of(r[i]).k != EMPTY) c.fail(name + fmtv("|empty|%d|%d", i, k), fmtv("operation %d of the empty interval and %d is not empty", i, k)); }
        return;
      }
      P2 a = (*iv)[q]; Amb<T>::set((q + s % K) & 3);
      I x(d->v[a.first], d->v[a.second], true);
      J<I> j{c, *d, a, b, true};
      Exp<T> ad = Exp<T>::V(d->L(ADD, a.first, b.first), d->U(ADD, a.second, b.first));
      j.tight("x+int", ad, [&] { return x + k; });
      j.tight("int+x", ad, [&] { return k + x; });
      j.tight("x-int", Exp<T>::V(d->L(SUB, a.first, b.first), d->U(SUB, a.second, b.first)), [&] { return x - k; });
      j.tight("int-x", Exp<T>::V(d->L(SUB, b.first, a.second), d->U(SUB, b.first, a.first)), [&] { return k - x; });
      Exp<T> m = mul_exp(*d, a, b);
      j.tight("x*int", m, [&] { return x * k; });
      j.tight("int*x", m, [&] { return k * x; });
      j.tight("x/int", div_exp(*d, a, b), [&] { return x / k; });
      j.tight("int/x", div_exp(*d, b, a), [&] { return k / x; });
      mini_mode = 0;
    },
    [=](u64 s) { u64 q = s / K; return name + ": x=" + (q == N ? "empty" : d->s((*iv)[q])) + fmtv(" n=%d", (*ks)[s % K]); });
}
void register_suites() {
#ifdef UNIT_MINI
  typedef mini<3, 2> m6; typedef mini<4, 3> m8;
  suite<IBase<m6> >("mini<3,2>/opp/base", false, 0, 20);
  suite<IStrict<m6> >("mini<3,2>/opp/strict", false, 0, 20);
  suite<IStd<m6> >("mini<3,2>/std/base", false, 0, 20);
  suite<IBase<m8> >("mini<4,3>/opp/base", false, 0, tier() ? 300 : 40);
#else
  int l = 2, r = tier() ? 200 : 60;
  suite<IStrict<double> >("double/default", true, l, r);
  suite<IBase<double> >("double/opp/base", true, l, r);
  suite<IStd<double> >("double/std/base", true, l, r);
  suite<IStrict<float> >("float/default", true, l, r);
  suite<IBase<float> >("float/opp/base", true, l, r);
  suite<IBase<xfloat> >("extended registers/opp/base", true, l, r);
  suite<IStd<xfloat> >("extended registers/std/base", true, l, r);
  suite<IBase<long double> >("long double/opp/base", true, l, r);
  suite<IStrict<long double> >("long double/default", true, l, r);
  suite<IStdStrict<float> >("float/std/strict", true, l, r);
#endif
}
MC_MAIN
