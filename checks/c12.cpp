// C12: construction, assignment and conversion
#include "../harness/dom.hpp"
#include "rational_common.hpp"
using mc::Ctx; using mc::fmtv; using ex::XR;

template<class S> struct Src {
  static std::vector<S> get() {
    std::vector<S> v;
    typedef std::numeric_limits<S> L;
    if constexpr (std::is_floating_point<S>::value) { v = Alpha<S>::get(3); for (S a : Alpha<S>::get(12)) v.push_back(a); v = Alpha<S>::norm(v); }
    else {
      std::set<S> s;
      unsigned long long mx = (unsigned long long)L::max();
      for (int b = 0; b <= L::digits; b++) for (int d = -3; d <= 3; d++) {
        unsigned long long a = (b == 64 ? 0ull : 1ull << b) + (unsigned long long)(long long)d;
        if (a <= mx) { s.insert((S)a); if (L::is_signed) s.insert((S)(-(long long)a)); }
      }
      for (unsigned long long a : {mx, mx - 1, mx / 3, mx / 7, 0xAAAAAAAAAAAAAAAAull & mx, 0x123456789abcdefull & mx, 0xfffffe8000000001ull & mx, 0xffffff7fffffffffull & mx}) { s.insert((S)a); if (L::is_signed) s.insert((S)(-(long long)a)); }
      s.insert(L::min()); s.insert(0);
      v.assign(s.begin(), s.end());
    }
    return v;
  }
  static XR exact(S v) {
    if constexpr (std::is_floating_point<S>::value) return ex::Num<S>::exact(v);
    else { mpq_class q; bool n = v < 0; unsigned long a = n ? 0ul - (unsigned long)v : (unsigned long)v; mpz_set_ui(q.get_num_mpz_t(), a); if (n) q = -q; return XR(q); }
  }
  static std::string str(S v) { if constexpr (std::is_floating_point<S>::value) return ex::str(v); else return exact(v).q.get_str(); }
};
template<int E, int M, class H> struct Src<mini<E, M, H> > {
  typedef mini<E, M, H> S;
  static std::vector<S> get() { return Alpha<S>::get(0); }
  static XR exact(const S& v) { return ex::Num<S>::exact(v); }
  static std::string str(const S& v) { return ex::str(v); }
};
template<class I> struct Judge {
  typedef typename I::base_type T; Ctx& c; std::string args; int mode;
  // want: nl..nu exact; empty when !ok
  template<class F> void chk(const char* form, bool ok, const XR& l, const XR& u, F f) const {
    Exp<T> e = ok ? Exp<T>::V(ex::rnd<T>(l, ex::DOWN), ex::rnd<T>(u, ex::UP)) : Exp<T>::E();
    Amb<T>::set(mode);
    Out<T> o = run<I>(f);
    int after = Amb<T>::get(); Amb<T>::set(0);
    c.hit(); c.outcome(hbits(o.l) * 31 + hbits(o.u) + o.k);
    if (!agrees<I>(o, e)) c.fail(std::string(form) + "|" + args, std::string(form) + " from " + args + fmtv(" in mode %s gives ", mode_name(mode)) + o.s() + ", expected " + e.s());
    (void)after;
  }
};
template<class I, class S> void from_numbers(const std::string& cfg, bool hw, const std::string& sn) {
  typedef typename I::base_type T;
  auto v = std::make_shared<std::vector<S> >(Src<S>::get());
  u64 n = v->size();
  auto desc1 = [=](u64 s) { return cfg + " from " + sn + " " + Src<S>::str((*v)[s / 4]) + " ambient " + mode_name(s & 3); };
  mc::add(cfg + " <- " + sn, hw, fmtv("%zu corner values of %s, four ambient modes", (size_t)n, sn.c_str()), n * 4, [=](u64 s, Ctx& c) {
    const S a = (*v)[s / 4]; XR x = Src<S>::exact(a);
    if (x.inf) return;
    Judge<I> j{c, sn + " " + Src<S>::str(a), (int)(s & 3)};
    j.chk("construction", true, x, x, [&] { return I(a); });
    j.chk("copy-construction", true, x, x, [&] { I r = a; return r; });
    j.chk("assignment", true, x, x, [&] { I r(T(1), T(2), true); I& q = (r = a); if (&q != &r) throw std::logic_error("= does not return *this"); return r; });
  }, desc1);
  u64 m = std::min<u64>(n, tier() ? 250 : 100); u64 step = n / m;
  auto at = [=](u64 i) { return (*v)[i * step]; };
  mc::add(cfg + " <- pair of " + sn, hw, fmtv("all ordered and reversed pairs of %zu corner values of %s", (size_t)m, sn.c_str()), m * m, [=](u64 s, Ctx& c) {
    const S a = at(s / m), b = at(s % m); XR x = Src<S>::exact(a), y = Src<S>::exact(b);
    if (x.inf > 0 || y.inf < 0) return;
    Judge<I> j{c, sn + " bounds " + Src<S>::str(a) + ", " + Src<S>::str(b), (int)((s / m + s) & 3)};
    bool ok = x <= y;
    j.chk("two-bound construction", ok, x, y, [&] { return I(a, b); });
    if constexpr (std::is_same<S, T>::value) j.chk("assign", ok, x, y, [&] { I r(T(1), T(2), true); r.assign(a, b); return r; });
  }, [=](u64 s) { return cfg + " from bounds " + Src<S>::str(at(s / m)) + ", " + Src<S>::str(at(s % m)); });
}
// bounds of two different types whose common type holds both values
template<class I, class S1, class S2> void from_mixed(const std::string& cfg, bool hw, const std::string& sn) {
  typedef typename I::base_type T;
  auto v = std::make_shared<std::vector<S1> >(Src<S1>::get()); auto w = std::make_shared<std::vector<S2> >(Src<S2>::get());
  u64 n = std::min<u64>(v->size(), 100), m = std::min<u64>(w->size(), 100), a1 = v->size() / n, b1 = w->size() / m;
  mc::add(cfg + " <- bounds of types " + sn, hw, fmtv("all ordered and reversed pairs of %zu and %zu corner values", (size_t)n, (size_t)m), n * m, [=](u64 s, Ctx& c) {
    const S1 a = (*v)[s / m * a1]; const S2 b = (*w)[s % m * b1]; XR x = Src<S1>::exact(a), y = Src<S2>::exact(b);
    if (x.inf > 0 || y.inf < 0) return;
    bool ok = x <= y;
    typedef typename std::common_type<S1, S2>::type C;        // the type in which C++ compares them
    if (!(Src<C>::exact((C)a) == x) || !(Src<C>::exact((C)b) == y)) return;      // see "inexact comparison" below
    Judge<I> j{c, sn + " bounds " + Src<S1>::str(a) + ", " + Src<S2>::str(b), (int)((s / m + s) & 3)};
    j.chk("two-bound construction", ok, x, y, [&] { return I(a, b); });
  }, [=](u64 s) { return cfg + " from " + sn + " bounds " + Src<S1>::str((*v)[s / m * a1]) + ", " + Src<S2>::str((*w)[s % m * b1]); });
}
// bounds of two types which C++ compares only after an inexact conversion: a few specific inputs
inline void inexact_comparison() {
  mc::add("bounds C++ compares inexactly", true, "three pairs of bounds of different types", 3, [=](u64 s, Ctx& c) {
    auto chk = [&](auto tag, auto a, auto b, int mode) {
      typedef typename decltype(tag)::type I;
      Judge<I> j{c, fmtv("bounds of different types, input %d", (int)s), mode};
      XR x = Src<decltype(a)>::exact(a), y = Src<decltype(b)>::exact(b);
      j.chk("two-bound construction", x <= y, x, y, [&] { return I(a, b); });
    };
    struct D { typedef IBase<double> type; }; struct F { typedef IBase<float> type; };
    if (s == 0) chk(D(), -1, 1u, 0);
    if (s == 1) chk(D(), (1L << 53) + 1, 0x1p53, 0);
    if (s == 2) chk(F(), -0xf.fffffp+53f, -144115188075855870L, 3);
  }, [=](u64 s) { const char* n[] = {"interval<double>(-1, 1u)", "interval<double>(2^53+1 (long), 2^53 (double))", "interval<float>(-0xf.fffffp+53f, -144115188075855870L) while rounding toward zero"}; return std::string(n[s]); });
}
template<class I> void mixed_sources(const std::string& cfg, bool hw) {
#define M_(a, b) from_mixed<I, a, b>(cfg, hw, #a " and " #b);
  M_(int, double) M_(double, int) M_(float, double) M_(double, float) M_(double, long double) M_(long double, float) M_(long, float) M_(float, long) M_(short, long long) M_(unsigned, unsigned char) M_(long double, long)
#undef M_
}
template<class I, class I2> void from_interval(const std::string& cfg, bool hw, const std::string& sn, int level) {
  typedef typename I::base_type T; typedef typename I2::base_type T2;
  auto d = std::make_shared<Dom<T2> >(level, false);
  u64 n = d->iv.size() + (Strict<I2>::value ? 0 : 2);
  auto desc = [=](u64 s) { u64 k = s / 4; return cfg + " from " + sn + " " + (k < d->iv.size() ? d->s(d->iv[k]) : k == d->iv.size() ? std::string("empty()") : std::string("[1,0]")) + " ambient " + mode_name(s & 3); };
  mc::add(cfg + " <- " + sn, hw, fmtv("all %zu intervals over %d numbers (and empty ones), four ambient modes", d->iv.size(), d->n), n * 4, [=](u64 s, Ctx& c) {
    u64 k = s / 4; bool e = k >= d->iv.size();
    I2 x; XR l(0L), u(0L);
    if (!e) { x = I2(d->v[d->iv[k].first], d->v[d->iv[k].second], true); l = d->x[d->iv[k].first]; u = d->x[d->iv[k].second]; }
    else if (k == d->iv.size()) x = I2::empty();
    else x = I2(T2(1), T2(0), true);
    if (e && std::is_same<I, I2>::value) return;
    Judge<I> j{c, desc(s), (int)(s & 3)};
    j.chk("construction", !e, l, u, [&] { return I(x); });
    j.chk("assignment", !e, l, u, [&] { I r(T(1), T(2), true); I& q = (r = x); if (&q != &r) throw std::logic_error("= does not return *this"); return r; });
  }, desc);
}
template<class T> using INan = bn::interval<T, bil::policies<bil::rounded_math<T>, bil::checking_catch_nan<T> > >;
template<class I> Kind kind_of(std::function<I()> f) { return run<I>(f).k; }
template<class T> void invalid(const std::string& tn, bool hw) {
  // NaN sources under every policy that detects them; default construction
  mc::add("invalid/" + tn, hw, "NaN numbers in every position, checking_base, catch_nan, no_empty; default construction", 1, [=](u64, Ctx& c) {
    const T nan = std::numeric_limits<T>::quiet_NaN(), one(1);
    auto ex1 = [&](const char* what, Kind want, Kind got) { c.hit(); if (got != want) c.fail(std::string(what) + "|" + tn, std::string(what) + " (" + tn + "): " + kind_name(got) + ", expected: " + kind_name(want)); };
    auto forms = [&](auto tag, const char* p, Kind want) {
      typedef typename decltype(tag)::type I;
      std::string n(p);
      ex1((n + ": I(NaN)").c_str(), want, run<I>([&] { return I(nan); }).k);
      ex1((n + ": I(NaN,1)").c_str(), want, run<I>([&] { return I(nan, one); }).k);
      ex1((n + ": I(1,NaN)").c_str(), want, run<I>([&] { return I(one, nan); }).k);
      ex1((n + ": I=NaN").c_str(), want, run<I>([&] { I r(one); r = nan; return r; }).k);
      ex1((n + ": assign(NaN,1)").c_str(), want, run<I>([&] { I r(one); r.assign(nan, one); return r; }).k);
      ex1((n + ": assign(1,NaN)").c_str(), want, run<I>([&] { I r(one); r.assign(one, nan); return r; }).k);
      if constexpr (!std::is_same<T, double>::value) {
        const double dn = std::numeric_limits<double>::quiet_NaN();
        ex1((n + ": I(double NaN)").c_str(), want, run<I>([&] { return I(dn); }).k);
        ex1((n + ": I(double NaN,1)").c_str(), want, run<I>([&] { return I(dn, 1.0); }).k);
        ex1((n + ": I=double NaN").c_str(), want, run<I>([&] { I r(one); r = dn; return r; }).k);
      }
      I z; c.hit(); if (!numeq(z.lower(), T(0)) || !numeq(z.upper(), T(0))) c.fail("default|" + tn, "default construction is not zero");
    };
    struct A { typedef IBase<T> type; }; struct B { typedef INan<T> type; };
    struct C { typedef bn::interval<T, bil::policies<bil::rounded_math<T>, bil::checking_no_empty<T> > > type; };
    forms(A(), "checking_base", EMPTY); forms(B(), "checking_catch_nan", THROW_NAN); forms(C(), "checking_no_empty", THROW_EMPTY);
  }, [=](u64) { return "NaN sources, " + tn; });
}
template<class I> void all_sources(const std::string& cfg, bool hw) {
#define S_(t) from_numbers<I, t>(cfg, hw, #t);
  S_(signed char) S_(unsigned char) S_(short) S_(unsigned short) S_(int) S_(unsigned) S_(long) S_(unsigned long) S_(long long) S_(unsigned long long)
  S_(float) S_(double) S_(long double)
}
void register_suites() {
#ifdef UNIT_MINI
  typedef mini<3, 2> m6; typedef mini<4, 3> m8; typedef mini<2, 1> m4;
  all_sources<IBase<m6> >("mini<3,2>/opp/base", false);
  all_sources<IStd<m6> >("mini<3,2>/std/base", false);
  all_sources<IStrict<m8> >("mini<4,3>/opp/strict", false);
  mixed_sources<IBase<m6> >("mini<3,2>/opp/base", false); mixed_sources<IStd<m8> >("mini<4,3>/std/base", false);
  from_numbers<IBase<m6>, m6>("mini<3,2>/opp/base", false, "mini<3,2>");
  from_numbers<IStrict<m6>, m6>("mini<3,2>/opp/strict", false, "mini<3,2>");
  from_numbers<IBase<m6>, m8>("mini<3,2>/opp/base", false, "mini<4,3>");
  from_numbers<IStd<m4>, m8>("mini<2,1>/std/base", false, "mini<4,3>");
  from_interval<IBase<m6>, IBase<m8> >("mini<3,2>/opp/base", false, "interval of mini<4,3>", 0);
  from_interval<IStd<m6>, IBase<m8> >("mini<3,2>/std/base", false, "interval of mini<4,3>", 0);
  from_interval<IStrict<m4>, IBase<m8> >("mini<2,1>/opp/strict", false, "interval of mini<4,3>", 0);
  from_interval<IBase<m8>, IStrict<m6> >("mini<4,3>/opp/base", false, "interval of mini<3,2>/strict", 0);
  from_interval<IBase<m6>, IStd<m6> >("mini<3,2>/opp/base", false, "mini<3,2>/std/base", 0);
  from_interval<IStrict<m6>, IBase<m6> >("mini<3,2>/opp/strict", false, "mini<3,2>/opp/base", 0);
  from_interval<IBase<m6>, IBase<m6> >("mini<3,2>/opp/base", false, "itself", 0);
  invalid<m6>("mini<3,2>", false);
#else
  all_sources<IBase<float> >("float/opp/base", true);
  all_sources<IStrict<float> >("float/default", true);
  all_sources<IStd<float> >("float/std/base", true);
  all_sources<IBase<xfloat> >("extended registers/opp/base", true); all_sources<IStd<xfloat> >("extended registers/std/base", true);
  all_sources<IBase<double> >("double/opp/base", true);
  all_sources<IStd<double> >("double/std/base", true);
  all_sources<IStrict<double> >("double/default", true);
  inexact_comparison();
  mixed_sources<IBase<float> >("float/opp/base", true); mixed_sources<IStrict<double> >("double/default", true); mixed_sources<IStd<double> >("double/std/base", true); mixed_sources<IBase<long double> >("long double/opp/base", true);
  all_sources<IBase<long double> >("long double/opp/base", true);
  all_sources<IStd<long double> >("long double/std/base", true);
#define F_(A, B) from_interval<A, B>(#A, true, #B, tier() ? 3 : 2);
  F_(IBase<float>, IBase<double>) F_(IStd<float>, IBase<double>) F_(IStrict<float>, IBase<long double>) F_(IBase<double>, IStd<long double>)
  F_(IStd<double>, IBase<long double>) F_(IBase<double>, IBase<float>) F_(IStrict<long double>, IBase<float>) F_(IBase<long double>, IStrict<double>)
  F_(IBase<xfloat>, IBase<double>) F_(IStd<xfloat>, IBase<float>)
  F_(IBase<double>, IStd<double>) F_(IStrict<double>, IBase<double>) F_(IBase<double>, IBase<double>) F_(IStrict<float>, IStrict<float>)
#undef F_
#define F_(A, B) from_interval<A, B>(#A " wide", true, #B, 12);
  F_(IBase<float>, IBase<double>) F_(IStd<float>, IStrict<long double>) F_(IStd<double>, IBase<long double>) F_(IBase<double>, IStrict<float>) F_(IStrict<double>, IBase<double>)
  invalid<float>("float", true); invalid<double>("double", true); invalid<long double>("long double", true);
#endif
}
MC_MAIN
