#pragma once
#include "../harness/sets.hpp"
#include <boost/numeric/interval/compare/certain.hpp>
#include <boost/numeric/interval/compare/possible.hpp>
#include <boost/numeric/interval/compare/lexicographic.hpp>
#include <boost/numeric/interval/compare/set.hpp>
#include <boost/numeric/interval/compare/tribool.hpp>
#include <boost/numeric/interval/compare/explicit.hpp>
using mc::Ctx; using mc::fmtv;

static const char* const REL[6] = {"<", "<=", ">", ">=", "==", "!="};
enum { F_ = 0, T_ = 1, I_ = 2, THROW_ = 3, OTHER_ = 4 };
inline const char* ans(int a) { static const char* n[] = {"false", "true", "indeterminate", "throws comparison_error", "throws another exception"}; return n[a]; }
inline int conv(bool b) { return b ? T_ : F_; }
inline int conv(boost::logic::tribool b) { return boost::logic::indeterminate(b) ? I_ : b ? T_ : F_; }
#define REL_SWITCH switch (k) { case 0: return conv(x < y); case 1: return conv(x <= y); case 2: return conv(x > y); case 3: return conv(x >= y); case 4: return conv(x == y); default: return conv(x != y); }
#define DEF_REL(S, USING) struct S { template<class A, class B> static int op(int k, const A& x, const B& y) { USING REL_SWITCH } };
DEF_REL(RDefault, )
DEF_REL(RCertain, using namespace bil::compare::certain;)
DEF_REL(RPossible, using namespace bil::compare::possible;)
DEF_REL(RTribool, using namespace bil::compare::tribool;)
DEF_REL(RLex, using namespace bil::compare::lexicographic;)
DEF_REL(RSet, using namespace bil::compare::set;)
struct RCer { template<class A, class B> static int op(int k, const A& x, const B& y) {
  using namespace bil; switch (k) { case 0: return cerlt(x, y); case 1: return cerle(x, y); case 2: return cergt(x, y); case 3: return cerge(x, y); case 4: return cereq(x, y); default: return cerne(x, y); } } };
struct RPos { template<class A, class B> static int op(int k, const A& x, const B& y) {
  using namespace bil; switch (k) { case 0: return poslt(x, y); case 1: return posle(x, y); case 2: return posgt(x, y); case 3: return posge(x, y); case 4: return poseq(x, y); default: return posne(x, y); } } };

// quantified relations between sets given by the ranks of their bounds
struct RK { int l, u; };
inline bool all_(int k, RK x, RK y) {
  switch (k) { case 0: return x.u < y.l; case 1: return x.u <= y.l; case 2: return x.l > y.u; case 3: return x.l >= y.u;
    case 4: return x.l == x.u && y.l == y.u && x.l == y.l; default: return x.u < y.l || y.u < x.l; }
}
inline int neg(int k) { static const int n[6] = {3, 2, 1, 0, 5, 4}; return n[k]; }
inline bool some_(int k, RK x, RK y) { return !all_(neg(k), x, y); }

template<class R, class A, class B> int ask(int k, const A& x, const B& y) {
  try { return R::op(k, x, y); } catch (bil::comparison_error&) { return THROW_; } catch (...) { return OTHER_; }
}
// f(k, RK x, RK y) -> answer for non-empty operands; g(k, x empty, y empty, RK, RK) -> answer otherwise (-1: unconstrained)
template<class R, class IA, class IB, class F, class G>
void rel_pairs(const std::string& name, bool hw, int level, bool ea, bool eb, F f, G g) {
  typedef typename IA::base_type T; typedef Vals<T> V; typedef typename V::It It;
  auto A = std::make_shared<V>(level, ea), B = std::make_shared<V>(level, eb);
  u64 N = A->it.size(), M = B->it.size();
  auto desc = [=](u64 s) { return name + ": x=" + A->s(A->it[s / M]) + " y=" + B->s(B->it[s % M]); };
  mc::add(name + "/intervals", hw, fmtv("all pairs of %zu and %zu intervals over %d numbers, six relations", (size_t)N, (size_t)M, A->n), N * M, [=](u64 s, Ctx& c) {
    const It &a = A->it[s / M], &b = B->it[s % M];
    IA x = A->template make<IA>(a); IB y = B->template make<IB>(b);
    RK rx{A->r[a.l], A->r[a.u]}, ry{B->r[b.l], B->r[b.u]};
    for (int k = 0; k < 6; k++) {
      int want = A->empty(a) || B->empty(b) ? g(k, A->empty(a), B->empty(b), rx, ry) : f(k, rx, ry);
      if (want < 0) continue;
      int got = ask<R>(k, x, y); c.hit(); c.outcome(got * 8 + k);
      if (got != want) c.fail(std::string(REL[k]) + "|" + desc(s), "x " + std::string(REL[k]) + " y " + ans(got) + ", expected: " + ans(want));
    }
  }, desc);
}
// numbers as right (and, with L, left) operands; NaN included when nandet
template<class R, bool L, class I, class F> void rel_numbers(const std::string& name, bool hw, int level, bool e, bool nandet, F f, bool undefined_bad = false) {
  typedef typename I::base_type T; typedef Vals<T> V; typedef typename V::It It;
  auto A = std::make_shared<V>(level, e);
  u64 N = A->it.size(), m = A->n + (A->nan && nandet ? 1 : 0);
  auto desc = [=](u64 s) { return name + ": x=" + A->s(A->it[s / m]) + " number " + A->s(s % m); };
  mc::add(name + "/numbers", hw, "every interval with every number, six relations", N * m, [=](u64 s, Ctx& c) {
    const It& a = A->it[s / m]; int i = s % m; if (i < A->n && !A->fin[i]) return;
    bool bad = A->empty(a) || i >= A->n; if (bad && undefined_bad) return;
    I x = A->template make<I>(a); const T v = A->num(i);
    RK rx{A->r[a.l], A->r[a.u]}, rv{i < A->n ? A->r[i] : 0, i < A->n ? A->r[i] : 0};
    for (int k = 0; k < 6; k++) {
      int want = bad ? (int)THROW_ : f(k, rx, rv), got = ask<R>(k, x, v); c.hit(); c.outcome(got * 8 + k);
      if (got != want) c.fail(std::string(REL[k]) + "|" + desc(s), "x " + std::string(REL[k]) + " number " + ans(got) + ", expected: " + ans(want));
      if constexpr (L) {
        want = bad ? (int)THROW_ : f(k, rv, rx); got = ask<R>(k, v, x); c.hit();
        if (got != want) c.fail("left " + std::string(REL[k]) + "|" + desc(s), "number " + std::string(REL[k]) + " x " + ans(got) + ", expected: " + ans(want));
      }
    }
  }, desc);
}
template<class T> using IX = bn::interval<T, bil::policies<bil::rounded_math<T>, bil::checking_base<T> > >;
template<class T> using IXS = bn::interval<T, bil::policies<bil::rounded_math<T>, bil::checking_strict<T> > >;
template<class T> using INN = bn::interval<T, bil::policies<bil::rounded_math<T>, bil::checking_no_nan<T> > >;
template<class T> using INE = bn::interval<T, bil::policies<bil::rounded_math<T>, bil::checking_no_empty<T> > >;
// runs SUITE<IA, IB>(name, hw, level, left may be empty, right may be empty, NaN numbers detected)
#define CMP_CONFIGS(SUITE) \
  typedef mini<3, 2> m6; typedef mini<2, 2> p5; int l = tier() ? 3 : 1; (void)l; \
  CMP_MINI(SUITE) CMP_HW(SUITE)
#ifdef UNIT_MINI
#define CMP_MINI(SUITE) \
  SUITE<IBase<m6>, IStd<m6> >("mini<3,2>/base,std", false, 0, true, true, true); \
  SUITE<IStrict<m6>, IStrict<m6> >("mini<3,2>/strict", false, 0, false, false, false); \
  SUITE<IStrict<p5>, IBase<p5> >("mini<2,2>/strict,base", false, 0, false, true, false); \
  SUITE<INE<p5>, INN<p5> >("mini<2,2>/no_empty,no_nan", false, 0, false, true, true); \
  SUITE<INN<p5>, INE<p5> >("mini<2,2>/no_nan,no_empty", false, 0, true, false, false);
#define CMP_HW(SUITE)
#else
#define CMP_MINI(SUITE)
#define CMP_HW(SUITE) \
  SUITE<IBase<double>, IStd<double> >("double/base,std", true, l, true, true, true); \
  SUITE<IStrict<double>, IStrict<double> >("double/default", true, l, false, false, false); \
  SUITE<IBase<float>, IBase<float> >("float/base", true, l, true, true, true); \
  SUITE<IBase<long double>, IStrict<long double> >("long double/base,default", true, l, true, false, true); \
  SUITE<IBase<double>, IStrict<double> >("double/base,default wide", true, tier() ? 11 : 10, true, false, true); \
  SUITE<IX<int>, IX<int> >("int/base", true, 0, true, true, false); \
  SUITE<IX<int>, IXS<int> >("int corners/base,default", true, 4, true, false, false); \
  SUITE<IXS<long>, IX<long> >("long corners/default,base", true, 4, false, true, false); \
  SUITE<IX<unsigned>, IX<unsigned> >("unsigned corners/base", true, 4, true, true, false); \
  SUITE<IX<signed char>, IX<signed char> >("signed char corners/base", true, 4, true, true, false); \
  SUITE<IX<unsigned short>, IX<unsigned short> >("unsigned short corners/base", true, 4, true, true, false); \
  SUITE<IXS<int>, IXS<int> >("int/default", true, 0, false, false, false); \
  SUITE<IX<Rat>, IX<Rat> >("rational/base", true, 0, true, true, false);
#endif
