// C23: numeric limits and stream output
#include "../harness/sets.hpp"
#include <boost/numeric/interval/limits.hpp>
#include <boost/numeric/interval/io.hpp>
#include <iomanip>
using mc::Ctx; using mc::fmtv;

template<> struct Amb<Rat> { static void set(int) {} static int get() { return -2; } };
template<> struct Amb<int> { static void set(int) {} static int get() { return -2; } };
template<class C> struct Comma : std::numpunct<C> {
  C do_decimal_point() const { return ','; } C do_thousands_sep() const { return '.'; } std::string do_grouping() const { return "\3"; }
};
struct Fm { int ff, sp, pt, up, prec, loc, width, adj, base; };
template<class C> void set_state(std::basic_ostream<C>& o, const Fm& f, bool width) {
  static const std::locale loc(std::locale::classic(), new Comma<C>);
  if (f.loc) o.imbue(loc);
  if (f.ff == 1) o << std::fixed; else if (f.ff == 2) o << std::scientific; else if (f.ff == 3) o << std::hexfloat;
  if (f.sp) o << std::showpos; if (f.pt) o << std::showpoint << std::showbase; if (f.up) o << std::uppercase;
  if (f.adj == 1) o << std::left; else if (f.adj == 2) o << std::internal;
  if (f.base) o << std::hex;
  o.precision(f.prec); o.fill('*');
  if (width) o.width(f.width);
}
template<class C> std::string narrow(const std::basic_string<C>& s) { std::string r; for (C c : s) r += (c > 0 && c < 127) ? (char)c : '?'; return r; }
template<class S> S strip(const S& s) { S r; for (auto c : s) if (c != '*') r += c; return r; }
template<class C, class T, class I> void printing(const std::string& cfg, bool hw, int level) {
  auto d = std::make_shared<Vals<T> >(level, true);
  auto fm = std::make_shared<std::vector<Fm> >();
  static const int precs[] = {6, 0, 1, 17, 40}, widths[] = {0, 1, 7, 30};
  for (int ff = 0; ff < 4; ff++) for (int sp = 0; sp < 2; sp++) for (int pt = 0; pt < 2; pt++) for (int up = 0; up < 2; up++) for (int p : precs) for (int loc = 0; loc < 2; loc++)
    for (int w : widths) for (int adj = 0; adj < (w ? 3 : 1); adj++) for (int b = 0; b < (ff == 0 ? 2 : 1); b++) {
      if (w && (up || loc || p > 17)) continue;
      fm->push_back(Fm{ff, sp, pt, up, p, loc, w, adj, b});
    }
  // also reversed and NaN encodings of the empty interval (checking_base knows them all)
  u64 N = d->it.size(), F = fm->size();
  std::string name = "print/" + cfg;
  mc::add(name, hw, cfg + ": every interval over the alphabet and every encoding of the empty interval, in every combination of float format, showpos, showpoint/showbase, uppercase, hex, precision, width, adjustment and number punctuation", N * F,
    [=](u64 s, Ctx& c) {
      const auto& it = d->it[s % N]; const Fm& f = (*fm)[s / N];
      I x = d->template make<I>(it);
      bool emp = d->empty(it);
      Amb<T>::set((s / N + s % N) & 3);
      // reference: what the stream prints for each bound on its own
      std::basic_ostringstream<C> l, u, o;
      set_state(l, f, false); set_state(u, f, false); set_state(o, f, true);
      l << x.lower(); u << x.upper();
      std::basic_string<C> e;
      if (emp) { e += C('['); e += C(']'); } else { e += C('['); e += l.str(); e += C(','); e += u.str(); e += C(']'); }
      auto fl = o.flags(); auto pr = o.precision(); auto lc = o.getloc();
      std::basic_ostream<C>& r = (o << x);
      c.hit();
      std::basic_string<C> g = o.str();
      u64 h = 0; for (C q : g) h = h * 131 + (u64)q; c.outcome(h);
      auto bad = [&](const std::string& w) { c.fail(name + "|" + d->s(it), "printing " + d->s(it) + fmtv(" (format %d showpos %d showpoint %d upper %d precision %d punct %d width %d hex %d): ", f.ff, f.sp, f.pt, f.up, f.prec, f.loc, f.width, f.base) + w); };
      if (&r != &o) { bad("the operator does not return the stream"); return; }
      if (f.width == 0 ? g != e : strip(g) != strip(e)) { bad("got \"" + narrow(g) + "\", expected \"" + narrow(e) + "\""); return; }
      if (f.width > 1 && (int)g.size() < f.width) { bad("shorter than the field width"); return; }
      if (o.flags() != fl || o.precision() != pr || o.width() != 0 || !(o.getloc() == lc) || o.fill() != C('*')) { bad("the stream's formatting state changed"); return; }
      if (!o.good()) { bad("the stream is no longer good"); return; }
      // text before and after, a second interval in the same stream
      std::basic_ostringstream<C> o2; Fm f0 = f; f0.width = 0; set_state(o2, f0, true);
      o2 << C('a') << x << C(';') << x << C('z');
      std::basic_string<C> e2; e2 += C('a'); e2 += e; e2 += C(';'); e2 += e; e2 += C('z');
      if (o2.str() != e2) { bad("two intervals in one stream: got \"" + narrow(o2.str()) + "\""); return; }
      // a failed stream prints nothing
      std::basic_ostringstream<C> o3; o3.setstate(std::ios::failbit); o3 << x;
      if (!o3.str().empty()) bad("a failed stream printed something");
      if (Amb<T>::get() != -2 && Amb<T>::get() != (int)((s / N + s % N) & 3)) bad("the rounding mode changed");
      mini_mode = 0;
    },
    [=](u64 s) { return name + ": " + d->s(d->it[s % N]) + fmtv(" stream state %llu", (unsigned long long)(s / N)); });
}
template<class T, class I> void limits(const std::string& cfg, bool hw, bool strict) {
  std::string name = "limits/" + cfg;
  mc::add(name, hw, cfg + ": every member of numeric_limits, in every ambient rounding mode", 4, [=](u64 s, Ctx& c) {
    typedef std::numeric_limits<I> L; typedef std::numeric_limits<T> B;
    auto bad = [&](const std::string& w) { Amb<T>::set(0); c.fail(name + "|" + w, name + ": " + w); };
    auto single = [&](const char* n, const I& r, const T& v) {
      c.hit(); c.outcome(hbits(r.lower()));
      if (!raweq(r.lower(), v) || !raweq(r.upper(), v)) bad(std::string(n) + " is " + "[" + Vals<T>::sv(r.lower()) + ", " + Vals<T>::sv(r.upper()) + "]");
    };
    Amb<T>::set(s);
    single("min", (L::min)(), (B::min)()); single("max", (L::max)(), (B::max)()); single("epsilon", L::epsilon(), B::epsilon()); single("denorm_min", L::denorm_min(), B::denorm_min());
    if constexpr (B::has_infinity) { I w = L::infinity(); c.hit(); if (!raweq(w.lower(), T(-B::infinity())) || !raweq(w.upper(), B::infinity())) bad("infinity is not the whole line"); }
    auto nan = [&](const char* n, auto f) {
      c.hit(); int k;
      try { I r = f(); k = is_empty_set(r) ? 1 : 0; } catch (std::runtime_error&) { k = 2; } catch (std::invalid_argument&) { k = 3; }
      if (strict ? (k != 2 && k != 3) : (k != 1 && k != 3)) bad(std::string(n) + fmtv(": outcome %d", k));
      return k;
    };
    if (B::has_quiet_NaN) { int k = nan("quiet_NaN", [] { return L::quiet_NaN(); }); if (!strict && k != 1) bad("quiet_NaN is not the empty interval"); }
    if constexpr (B::has_signaling_NaN) nan("signaling_NaN", [] { return L::signaling_NaN(); });
    if (Amb<T>::get() != (int)s) bad("the rounding mode changed");
    Amb<T>::set(0);
    c.hit();
    if (L::is_iec559) bad("is_iec559 is true");
    if (L::round_style != std::round_indeterminate) bad("round_style is claimed");
    if (!L::is_specialized || L::is_signed != B::is_signed || L::is_integer != B::is_integer || L::is_exact != B::is_exact || L::digits != B::digits || L::digits10 != B::digits10 || L::radix != B::radix ||
        L::min_exponent != B::min_exponent || L::max_exponent != B::max_exponent || L::has_infinity != B::has_infinity || L::has_quiet_NaN != B::has_quiet_NaN || L::has_denorm != B::has_denorm || L::is_bounded != B::is_bounded || L::is_modulo != B::is_modulo)
      bad("a characteristic inherited from the base type differs");
  }, [=](u64 s) { return name + " in mode " + mode_name(s); });
}
template<class T> void lims(const std::string& t, bool hw) {
  using namespace bil;
  limits<T, IBase<T> >(t + " base", hw, false);
  limits<T, IStrict<T> >(t + " default", hw, true);
  limits<T, bn::interval<T, policies<rounded_math<T>, checking_no_nan<T> > > >(t + " no_nan", hw, false);
  limits<T, bn::interval<T, policies<rounded_math<T>, checking_catch_nan<T> > > >(t + " catch_nan", hw, false);
  limits<T, bn::interval<T, policies<rounded_math<T>, checking_catch_nan<T, checking_no_empty<T> > > > >(t + " catch_nan<no_empty>", hw, true);
  limits<T, typename unprotect<IBase<T> >::type>(t + " unprotected", hw, false);
}
void register_suites() {
#ifdef UNIT_MINI
  lims<mini<3, 2> >("mini<3,2>", false); lims<mini<2, 2> >("mini<2,2>", false);
  printing<char, mini<3, 2>, IBase<mini<3, 2> > >("char mini<3,2>", false, 0);
  printing<wchar_t, mini<2, 2>, IBase<mini<2, 2> > >("wchar_t mini<2,2>", false, 0);
  printing<char, Rat, bn::interval<Rat, bil::policies<bil::rounded_math<Rat>, bil::checking_base<Rat> > > >("char rational", false, 0);
  printing<wchar_t, int, bn::interval<int, bil::policies<bil::rounded_math<int>, bil::checking_base<int> > > >("wchar_t int", false, 0);
#else
  lims<float>("float", true); lims<double>("double", true); lims<long double>("long double", true);
  int l = tier() ? 1 : 0;
  printing<char, double, IBase<double> >("char double", true, l);
  printing<wchar_t, double, IBase<double> >("wchar_t double", true, l);
  printing<char, float, IBase<float> >("char float", true, l);
  printing<char, long double, IBase<long double> >("char long double", true, l);
  printing<char, int, bn::interval<int, bil::policies<bil::rounded_math<int>, bil::checking_base<int> > > >("char int", true, 0);
#endif
}
MC_MAIN
