// C07: set operations and predicates
#include "../harness/sets.hpp"
using mc::Ctx; using mc::fmtv;

template<class I> struct Tools7 {
  typedef typename I::base_type T; typedef Vals<T> V;
    Ctx& c; const V& d; std::string args; bool strict;
    std::string show(const I& r) const { return is_empty_set(r) ? "empty" : "[" + V::sv(r.lower()) + ", " + V::sv(r.upper()) + "]"; }
    template<class F> void pred(const char* n, bool want, F f) const {
      bool got = f(); c.hit(); c.outcome(got);
      if (got != want) c.fail(std::string(n) + "|" + args, std::string(n) + " with " + args + (got ? " is true" : " is false"));
    }
    // want: null = empty
    template<class F> void set(const char* n, const T* l, const T* u, F f) const {
      c.hit();
      std::string why;
      try {
        I r = f();
        bool e = is_empty_set(r);
        if (!l) { if (!e) why = "gives " + show(r) + ", expected the empty set"; else if (strict) why = "gives an empty interval without the policy's error"; }
        else if (e || !raweq(r.lower(), *l) || !raweq(r.upper(), *u)) why = "gives " + show(r) + ", expected [" + V::sv(*l) + ", " + V::sv(*u) + "]";
      } catch (std::runtime_error&) { if (l || !strict) why = "throws"; }
      if (!why.empty()) c.fail(std::string(n) + "|" + args, std::string(n) + " with " + args + " " + why);
    }
  };

template<class I, class I2> void suite(const std::string& cfg, bool hw, int level, bool can_be_empty, bool nandet = true) {
  typedef typename I::base_type T;
  typedef Vals<T> V; typedef typename V::It It;
  auto d = std::make_shared<V>(level, can_be_empty);
  u64 N = d->it.size();
  typedef Tools7<I> Tools;
  bool strict = !can_be_empty;
  mc::add("pairs/" + cfg, hw, fmtv("%s: all pairs of %zu intervals (with empty, reversed and NaN-bounded ones where the policy knows emptiness) over %d numbers", cfg.c_str(), d->it.size(), d->n), N * N,
    [=](u64 s, Ctx& c) {
      const It &a = d->it[s / N], &b = d->it[s % N];
      const V& D = *d;
      I x = D.template make<I>(a), y = D.template make<I>(b); I2 y2 = D.template make<I2>(b);
      Tools t{c, D, "x=" + D.s(a) + " y=" + D.s(b), strict};
      bool ea = D.empty(a), eb = D.empty(b);
      int al = D.r[a.l], au = D.r[a.u], bl = D.r[b.l], bu = D.r[b.u];
      const T *il = 0, *iu = 0, *hl = 0, *hu = 0;
      if (!ea && !eb) {
        if (std::max(al, bl) <= std::min(au, bu)) { il = al > bl ? &D.v[a.l] : &D.v[b.l]; iu = au < bu ? &D.v[a.u] : &D.v[b.u]; }
        hl = al < bl ? &D.v[a.l] : &D.v[b.l]; hu = au > bu ? &D.v[a.u] : &D.v[b.u];
      } else if (!ea) { hl = &D.v[a.l]; hu = &D.v[a.u]; } else if (!eb) { hl = &D.v[b.l]; hu = &D.v[b.u]; }
      bool inter = il != 0, sub = ea || (!eb && bl <= al && au <= bu), eq = (ea && eb) || (!ea && !eb && al == bl && au == bu), psub = sub && !eq;
      t.set("intersect(x,y)", il, iu, [&] { return bn::intersect(x, y); });
      t.set("hull(x,y)", hl, hu, [&] { return bn::hull(x, y); });
      t.pred("overlap(x,y)", inter, [&] { return bn::overlap(x, y); });
      t.pred("subset(x,y)", sub, [&] { return bn::subset(x, y); });
      t.pred("proper_subset(x,y)", psub, [&] { return bn::proper_subset(x, y); });
      t.pred("equal(x,y)", eq, [&] { return bn::equal(x, y); });
      t.pred("overlap(x,y other policy)", inter, [&] { return bn::overlap(x, y2); });
      t.pred("proper_subset(x,y other policy)", psub, [&] { return bn::proper_subset(x, y2); });
      t.pred("equal(x,y other policy)", eq, [&] { return bn::equal(x, y2); });
    },
    [=](u64 s) { return cfg + ": x=" + d->s(d->it[s / N]) + " y=" + d->s(d->it[s % N]); });
  u64 n = d->n + (d->nan && nandet && !strict ? 1 : 0);
  mc::add("number/" + cfg, hw, "every interval with every number (NaN included where the policy detects it)", N * n,
    [=](u64 s, Ctx& c) {
      const It& a = d->it[s / n]; int k = s % n; const V& D = *d;
      if (k < D.n && !D.fin[k]) return;              // infinities are bounds, not members
      I x = D.template make<I>(a); const T w = D.num(k);
      Tools t{c, D, "x=" + D.s(a) + " number " + D.s(k), strict};
      bool ea = D.empty(a), bad = k >= D.n; int al = D.r[a.l], au = D.r[a.u], r = bad ? -1 : D.r[k];
      t.pred("in(number,x)", !ea && !bad && al <= r && r <= au, [&] { return bn::in(w, x); });
      const T *hl = 0, *hu = 0;
      if (!ea) { hl = &D.v[a.l]; hu = &D.v[a.u]; }
      if (!bad) { if (ea || r < al) hl = &D.v[k]; if (ea || r > au) hu = &D.v[k]; }
      t.set("hull(x,number)", hl, hu, [&] { return bn::hull(x, w); });
      t.set("hull(number,x)", hl, hu, [&] { return bn::hull(w, x); });
    },
    [=](u64 s) { return cfg + ": x=" + d->s(d->it[s / n]) + " number " + d->s(s % n); });
  u64 m = d->n + (d->nan && nandet && !strict ? 1 : 0);
  mc::add("numbers/" + cfg, hw, "every pair of numbers", m * m,
    [=](u64 s, Ctx& c) {
      int i = s / m, j = s % m; const V& D = *d;
      if ((i < D.n && !D.fin[i]) || (j < D.n && !D.fin[j])) return;
      const T v = D.num(i), w = D.num(j);
      Tools t{c, D, "numbers " + D.s(i) + " and " + D.s(j), strict};
      const T *hl = 0, *hu = 0;
      if (i < D.n && j < D.n) { hl = D.r[i] <= D.r[j] ? &D.v[i] : &D.v[j]; hu = D.r[i] <= D.r[j] ? &D.v[j] : &D.v[i]; }
      else if (i < D.n) hl = hu = &D.v[i]; else if (j < D.n) hl = hu = &D.v[j];
      t.set("interval::hull(number,number)", hl, hu, [&] { return I::hull(v, w); });
      if constexpr (std::is_same<I, bn::interval<T> >::value) t.set("hull(number,number)", hl, hu, [&] { return bn::hull(v, w); });
    },
    [=](u64 s) { return cfg + ": numbers " + d->s(s / m) + " and " + d->s(s % m); });
  mc::add("single/" + cfg, hw, "every interval", N,
    [=](u64 s, Ctx& c) {
      const It& a = d->it[s]; const V& D = *d;
      I x = D.template make<I>(a);
      Tools t{c, D, "x=" + D.s(a), strict};
      bool ea = D.empty(a); int z = -1; for (int i = 0; i < D.n; i++) if (!rawlt(D.v[i], T(0)) && !rawlt(T(0), D.v[i])) z = D.r[i];
      bool z0 = !ea && D.r[a.l] <= z && z <= D.r[a.u];
      t.pred("empty(x)", ea, [&] { return bn::empty(x); });
      t.pred("singleton(x)", !ea && D.r[a.l] == D.r[a.u], [&] { return bn::singleton(x); });
      t.pred("zero_in(x)", z0, [&] { return bn::zero_in(x); });
      t.pred("in_zero(x)", z0, [&] { return bn::in_zero(x); });
      if (!ea) { t.pred("lower(x)", true, [&] { return raweq(bn::lower(x), D.v[a.l]); }); t.pred("upper(x)", true, [&] { return raweq(bn::upper(x), D.v[a.u]); });
        t.pred("checked_lower(x)", true, [&] { return raweq(bn::checked_lower(x), D.v[a.l]); }); t.pred("checked_upper(x)", true, [&] { return raweq(bn::checked_upper(x), D.v[a.u]); }); }
      else if (D.nan) { t.pred("checked_lower(empty) is NaN", true, [&] { return rawnan(bn::checked_lower(x)); }); t.pred("checked_upper(empty) is NaN", true, [&] { return rawnan(bn::checked_upper(x)); }); }
      t.pred("subset(x,x)", true, [&] { return bn::subset(x, x); });
      t.pred("proper_subset(x,x)", false, [&] { return bn::proper_subset(x, x); });
      t.pred("equal(x,x)", true, [&] { return bn::equal(x, x); });
      if (s == 0) {
        if (!strict) { t.set("empty()", 0, 0, [] { return I::empty(); }); }
        else t.set("empty()", 0, 0, [] { return I::empty(); });
        if (std::numeric_limits<T>::has_infinity) { T lo = -std::numeric_limits<T>::infinity(), hi = std::numeric_limits<T>::infinity(); t.set("whole()", &lo, &hi, [] { return I::whole(); }); }
      }
    },
    [=](u64 s) { return cfg + ": x=" + d->s(d->it[s]); });
}
template<class T> using IX = bn::interval<T, bil::policies<bil::rounded_math<T>, bil::checking_base<T> > >;
template<class T> using IXS = bn::interval<T, bil::policies<bil::rounded_math<T>, bil::checking_strict<T> > >;
void register_suites() {
#ifdef UNIT_MINI
  typedef mini<3, 2> m6; typedef mini<2, 3> n6; typedef mini<2, 2> p5;
  suite<IBase<m6>, IStd<m6> >("mini<3,2>/base", false, 0, true);
  suite<IStrict<m6>, IStdStrict<m6> >("mini<3,2>/strict", false, 0, false);
  suite<IStd<n6>, IBase<n6> >("mini<2,3>/base", false, 0, true);
  suite<bn::interval<p5, bil::policies<bil::rounded_math<p5>, bil::checking_no_nan<p5> > >, IBase<p5> >("mini<2,2>/no_nan<base>", false, 0, true, false);
  if (tier()) suite<IBase<mini<3, 3> >, IStd<mini<3, 3> > >("mini<3,3>/base", false, 0, true);
#else
  int l = tier() ? 3 : 2;
  suite<IBase<double>, IStd<double> >("double/base", true, l, true);
  suite<IStrict<double>, IStdStrict<double> >("double/default", true, l, false);
  suite<IBase<float>, IStd<float> >("float/base", true, l, true);
  suite<IStrict<float>, IStdStrict<float> >("float/default", true, l, false);
  suite<IBase<long double>, IStd<long double> >("long double/base", true, l - 1, true);
  int w = tier() ? 11 : 10;
  suite<IBase<double>, IStd<double> >("double/base wide", true, w, true);
  suite<IStrict<float>, IStdStrict<float> >("float/default wide", true, w, false);
  suite<IX<int>, IX<int> >("int/base", true, 0, true);
  suite<IXS<int>, IXS<int> >("int/default", true, 0, false);
  suite<IX<int>, IX<int> >("int corners/base", true, 4, true);
  suite<IXS<long>, IXS<long> >("long corners/default", true, 4, false);
  suite<IX<unsigned>, IX<unsigned> >("unsigned corners/base", true, 4, true);
  suite<IX<signed char>, IX<signed char> >("signed char corners/base", true, 4, true);
  suite<IX<unsigned short>, IX<unsigned short> >("unsigned short corners/base", true, 4, true);
  suite<IX<Rat>, IX<Rat> >("rational/base", true, 0, true);
#endif
}
MC_MAIN
