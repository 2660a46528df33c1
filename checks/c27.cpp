// C27: user-supplied base types and policies are reached only through the documented interface
// Two instantiations of the same templates run in lockstep: the ordinary interval<B>, and interval<Opaque<B>> whose base type has no arithmetic, no numeric_limits and
// no conversions but the documented ones, with a hand-written rounding policy (a stateful object) and a hand-written checking policy (own infinities, own invalid number, own empty encoding).
#define MINI_TRANSC
#include "../harness/ops.hpp"
#include "transc_common.hpp"
using mc::Ctx; using mc::fmtv;

static thread_local const char* misuse = 0;      // a use outside the documented interface
static thread_local int scope_depth = 0;         // live rounding objects
static thread_local bool any_int = false;        // nth_root converts its degree, the default constants are 3..7
inline void mis(const char* w) { if (!misuse) misuse = w; }

enum { GOOD, INVALID, MARK, POISON };
template<class B, int CFG> struct Opaque {
  B b; char bad;
  Opaque() : b(), bad(POISON) {}
  Opaque(int k) : b(B(k)), bad(k >= -1 && k <= 2 || any_int ? GOOD : POISON) { if (bad) mis("conversion from an int other than -1, 0, 1, 2"); }
  static Opaque enc(const B& v) { Opaque r; r.b = v; r.bad = rawnan(v) ? INVALID : GOOD; return r; }
  static Opaque tag(int t) { Opaque r; r.bad = t; return r; }
  Opaque operator-() const { use(); Opaque r(*this); if (!bad) r.b = -b; return r; }
  void use() const { if (bad == POISON) mis("use of a number that was never given a value"); }
  static int ord(const Opaque& x, const Opaque& y) {        // 0 equal, -1, 1, 2 unordered
    x.use(); y.use();
    if (x.bad || y.bad) return CFG && x.bad == y.bad ? 0 : 2;
    return rawlt(x.b, y.b) ? -1 : rawlt(y.b, x.b) ? 1 : 0;
  }
  friend bool operator<(const Opaque& x, const Opaque& y) { return ord(x, y) == -1; }
  friend bool operator>(const Opaque& x, const Opaque& y) { return ord(x, y) == 1; }
  friend bool operator<=(const Opaque& x, const Opaque& y) { int o = ord(x, y); return o == -1 || o == 0; }
  friend bool operator>=(const Opaque& x, const Opaque& y) { int o = ord(x, y); return o == 1 || o == 0; }
  friend bool operator==(const Opaque& x, const Opaque& y) { return ord(x, y) == 0; }
  friend bool operator!=(const Opaque& x, const Opaque& y) { return ord(x, y) != 0; }
};
template<class B, int C> inline bool isnum(const Opaque<B, C>& a) { return !a.bad; }
template<class B, int C> inline bool numlt(const Opaque<B, C>& a, const Opaque<B, C>& b) { return !a.bad && !b.bad && rawlt(a.b, b.b); }
template<class B, int C> inline bool numeq(const Opaque<B, C>& a, const Opaque<B, C>& b) { return !a.bad && !b.bad && raweq(a.b, b.b); }
// where numeric_limits says something, it is not what the policy says
namespace std {
template<class B> class numeric_limits<Opaque<B, 1> > : public numeric_limits<B> {
  typedef Opaque<B, 1> O;
public:
  static O infinity() { return O(); } static O quiet_NaN() { return O(); } static O signaling_NaN() { return O(); }
  static O max() { return O(); } static O lowest() { return O(); } static O min() { return O(); } static O denorm_min() { return O(); } static O epsilon() { return O(); } static O round_error() { return O(); }
};
}
template<class B, int C> struct Foreign<Opaque<B, C> > : Foreign<B> {};

// the checking policy: everything it can say is its own
template<class O, int CFG> struct OCheck {
  typedef decltype(O().b) B;
  static O pos_inf() { return O::enc(std::numeric_limits<B>::infinity()); }
  static O neg_inf() { return O::enc(-std::numeric_limits<B>::infinity()); }
  static O nan() { return O::tag(INVALID); }
  static bool is_nan(const O& x) { x.use(); return x.bad == INVALID; }
  static O empty_lower() { return CFG == 0 ? O::tag(INVALID) : CFG == 1 ? O(2) : O::tag(MARK); }
  static O empty_upper() { return CFG == 0 ? O::tag(INVALID) : CFG == 1 ? O(1) : O::tag(MARK); }
  static bool is_empty(const O& l, const O& u) { l.use(); u.use(); return CFG == 0 ? !(l <= u) : CFG == 1 ? l > u : l.bad == MARK || l > u; }
};
// the rounding policy: an object with state that must be alive, whose functions are not static
template<class O> struct OFun {
  typedef decltype(O().b) B;
  typedef bil::rounded_transc_std<B> In;
  long magic;
  OFun() : magic(0x0b5e55ed) {}
  ~OFun() { chk(); magic = 0; }
  void chk() const { if (magic != 0x0b5e55ed) mis("a rounding function of an object that is not alive"); if (scope_depth <= 0) mis("a rounding function outside the life of a rounding object"); }
  template<class F> O app(F f) { chk(); int m = Amb<B>::get(); In in; B r = f(in); Amb<B>::set(m); return O::enc(r); }
  bool okv(const O& x) { x.use(); return !x.bad; }
#define OF1(n) O n(const O& x) { if (!okv(x)) return O::tag(INVALID); return app([&](In& i) { return B(i.n(x.b)); }); }
#define OF2(n) O n(const O& x, const O& y) { if (!okv(x) || !okv(y)) return O::tag(INVALID); return app([&](In& i) { return B(i.n(x.b, y.b)); }); }
#define OFB(n) OF1(n##_down) OF1(n##_up)
  OF2(add_down) OF2(add_up) OF2(sub_down) OF2(sub_up) OF2(mul_down) OF2(mul_up) OF2(div_down) OF2(div_up) OF2(median)
  OFB(sqrt) OFB(int) OFB(exp) OFB(log) OFB(sin) OFB(cos) OFB(tan) OFB(asin) OFB(acos) OFB(atan) OFB(sinh) OFB(cosh) OFB(tanh) OFB(asinh) OFB(acosh) OFB(atanh)
  template<class U> O conv_down(const U& v) { return app([&](In& i) { return B(i.conv_down(v)); }); }
  template<class U> O conv_up(const U& v) { return app([&](In& i) { return B(i.conv_up(v)); }); }
  O conv_down(const O& v) { chk(); return v; }
  O conv_up(const O& v) { chk(); return v; }
};
template<class O> struct OUnprot : OFun<O> { typedef OUnprot unprotected_rounding; };
template<class O> struct OScope { OScope() { scope_depth++; } ~OScope() { scope_depth--; } };
template<class O> struct ORound : OScope<O>, OFun<O> { typedef OUnprot<O> unprotected_rounding; };

template<int E, int M> struct PiTagOf { static void pt(int) {} };
typedef mini<3, 1, PiTagOf<3, 1> > M31; typedef mini<3, 2, PiTagOf<3, 2> > M32; typedef mini<2, 2, PiTagOf<2, 2> > M22;
namespace boost { namespace numeric { namespace interval_lib {
#define PI_(T, f, n, d, dir) template<> inline T f<T>() { return pi_round<T>(n, d, ex::dir); }
#define PIB(T) namespace constants { PI_(T, pi_lower, 1, 1, DOWN) PI_(T, pi_upper, 1, 1, UP) PI_(T, pi_half_lower, 1, 2, DOWN) PI_(T, pi_half_upper, 1, 2, UP) PI_(T, pi_twice_lower, 2, 1, DOWN) PI_(T, pi_twice_upper, 2, 1, UP) }
#define PIO_(T, C, f) template<> inline Opaque<T, C> f<Opaque<T, C> >() { return Opaque<T, C>::enc(f<T>()); }
#define PIO(T, C) namespace constants { PIO_(T, C, pi_lower) PIO_(T, C, pi_upper) PIO_(T, C, pi_half_lower) PIO_(T, C, pi_half_upper) PIO_(T, C, pi_twice_lower) PIO_(T, C, pi_twice_upper) }
#define USR(T, C) namespace user { template<> inline bool is_zero(const Opaque<T, C>& v) { v.use(); return !v.bad && raweq(v.b, T(0)); } \
  template<> inline bool is_neg(const Opaque<T, C>& v) { v.use(); return !v.bad && rawlt(v.b, T(0)); } template<> inline bool is_pos(const Opaque<T, C>& v) { v.use(); return !v.bad && rawlt(T(0), v.b); } }
PIB(M31) PIB(M32)
PIO(M31, 0) PIO(M31, 1) PIO(M31, 2) PIO(M32, 0) PIO(M32, 1) PIO(M32, 2) PIO(double, 0) PIO(double, 1) PIO(double, 2) PIO(float, 0) PIO(float, 1) PIO(float, 2)
USR(M31, 1) USR(M32, 1) USR(double, 1) USR(float, 1)
}}}

// comparisons of the other families, besides the table of all operations
template<class I> std::vector<Op<I> > more_ops() {
  typedef Args<I> A; typedef Res<I> R; std::vector<Op<I> > v;
#define MB(N, U, EXPR) v.push_back(Op<I>{N, U, [](A& a) { return R::boolean(EXPR); }, [](const A&) -> int { return -1; }});
#define MX(f) MB(#f "(x,y)", UX | UY, bil::f(a.x, a.y)) MB(#f "(x,v)", UX | UV, bil::f(a.x, a.v)) MB(#f "(v,x)", UX | UV, bil::f(a.v, a.x))
  MX(cerlt) MX(cerle) MX(cergt) MX(cerge) MX(cereq) MX(cerne) MX(poslt) MX(posle) MX(posgt) MX(posge) MX(poseq) MX(posne)
  v.push_back(Op<I>{"whole()", 0, [](A&) { return R::iv(I::whole()); }, [](const A&) -> int { return 0; }});
  v.push_back(Op<I>{"empty()", 0, [](A&) { return R::iv(I::empty()); }, [](const A&) -> int { return 1; }});
  v.push_back(Op<I>{"set_empty", UX | INPLACE, [](A& a) { a.x.set_empty(); return R(); }, [](const A&) -> int { return 1; }});

  v.push_back(Op<I>{"I()", 0, [](A&) { return R::iv(I()); }, [](const A&) -> int { return 0; }});
  return v;
}
template<class T> std::string sh(const T& a) { return rawnan(a) ? "invalid" : show(a); }
template<class B, int C> std::string sh(const Opaque<B, C>& a) { return a.bad == POISON ? "(never given a value)" : a.bad ? "invalid" : show(a.b); }
template<class I> std::string shc(const Call<I>& c, bool emp, bool empb) {
  if (c.k == EMPTY) return "empty"; if (c.k != VALUE) return kind_name(c.k);
  auto iv = [](const I& a, bool e) { return e ? std::string("empty") : "[" + sh(a.lower()) + ", " + sh(a.upper()) + "]"; };
  switch (c.r.t) { case R_IV: return iv(c.r.a, emp); case R_PAIR: return iv(c.r.a, emp) + " and " + iv(c.r.b, empb); case R_NUM: return sh(c.r.n); case R_BOOL: return c.r.q ? "true" : "false"; default: return "nothing"; }
}
template<class B, class PO, class IO, int CFG> void lockstep(const std::string& cfg, bool hw, int level, bool pairs, bool scoped) {
  typedef typename IO::base_type O; typedef typename IO::traits_type::checking OC;
  auto sp = std::make_shared<Space<B> >(level, true, true, few_ks());
  auto p1 = std::make_shared<std::vector<Op<PO> > >(all_ops<PO, true>()); auto p2 = std::make_shared<std::vector<Op<IO> > >(all_ops<IO, true>());
  { std::vector<Op<PO> > m = more_ops<PO>(); p1->insert(p1->end(), m.begin(), m.end()); std::vector<Op<IO> > n = more_ops<IO>(); p2->insert(p2->end(), n.begin(), n.end()); }
  bool small = !numlt(B(7), std::numeric_limits<B>::max());
  for (size_t i = 0, j = 0; i < p1->size(); i++) {
    const Op<PO> op = (*p1)[i]; unsigned u = op.uses;
    if (std::string(op.name) == "interval::whole()") continue;               // listed for types with infinities of their own; whole() is in more_ops
    if (std::string((*p2)[j].name) == "interval::whole()") j++;
    const Op<IO> oq = (*p2)[j++];
    if (std::string(oq.name) != op.name) abort();
    if (small && ((u & TRANS) || std::string(op.name).substr(0, 2) == "pi")) continue;
    if (!pairs && (u & UX) && (u & UY)) continue;
    std::string name = cfg + " " + op.name; 
    // a number of another type (the degree of nth_root too) is converted by the language when it is tested for being invalid, and by the rounding policy for its value
    bool conv = std::string(op.name).substr(0, 8) == "nth_root" || ((u & UK) && (std::string(op.name).find("int k") != std::string::npos || std::string(op.name).find("long double") != std::string::npos));
    std::string on = op.name; int fm = on == "fmod(x,y)" ? 1 : on == "fmod(x,v)" ? 2 : on == "fmod(v,x)" ? 3 : 0;
    mc::add(name, hw, "every combination of operands; the ordinary instantiation and the one with user-supplied types in lockstep", sp->size(u), [=](u64 s, Ctx& c) {
      typename Space<B>::Pt p = sp->at(u, s);
      Args<PO> a = sp->template make<PO>(p);
      auto E = [&](const B& v) { return O::enc(v); };
      auto mk = [&](const typename Vals<B>::It& t, const PO& x) { return t.kind ? IO::empty() : IO(E(x.lower()), E(x.upper()), true); };
      Args<IO> b{mk(*p.x, a.x), mk(*p.y, a.y), E(a.v), E(a.w), a.k};
      if (fm && !(p.ex || p.ey || p.nv)) {         // as in C19: bounded dividend, positive divisor
        const B& dl = fm == 1 ? a.y.lower() : fm == 2 ? a.v : a.x.lower();
        if (!gt0(dl) || !isfin(dl) || (fm < 3 && !bounded(a.x))) return;
      }
      if (!p.ex && whole_(a.x) && (on == "bisect(x)" || on == "median(x)")) return;   // as in C08
      if (!p.ex && (on == "sin(x)" || on == "cos(x)" || on == "tan(x)") && !bounded(a.x)) return;   // as in C18
      Amb<B>::set(0);
      Call<PO> r = call(op, a); Amb<B>::set(0);
      misuse = 0; any_int = conv; scope_depth = 0;
      Call<IO> q;
      if (scoped) { ORound<O> rnd; (void)rnd; q = call(oq, b); if (scope_depth != 1) mis("the life of a rounding object does not end with the operation"); }
      else { q = call(oq, b); if (scope_depth != 0) mis("the life of a rounding object does not end with the operation"); }
      any_int = false; scope_depth = 1;
      auto eo = [&](const IO& x) { if (OC::is_empty(x.lower(), x.upper())) return true; if (x.lower().bad || x.upper().bad) { mis("a result that is not empty has an invalid number as a bound"); return true; } return false; };
      bool e = false, eb = false;
      if (q.k == VALUE || q.k == EMPTY) { if (q.r.t == R_IV) { e = eo(q.r.a); q.k = e ? EMPTY : VALUE; } if (q.r.t == R_PAIR) { e = eo(q.r.a); eb = eo(q.r.b); } }
      c.hit(); c.outcome(r.k * 7 + (r.k == VALUE && r.r.t != R_BOOL ? hbits(r.r.t == R_NUM ? r.r.n : r.r.a.lower()) : r.r.q));
      bool same = r.k == q.k;
      auto siv = [&](const PO& x, const IO& y, bool ey) { bool ex_ = is_empty_set(x); return ex_ || ey ? ex_ == ey : raweq(x.lower(), y.lower().b) && raweq(x.upper(), y.upper().b); };
      if (same && r.k == VALUE) switch (r.r.t) {
        case R_IV: same = siv(r.r.a, q.r.a, e); break; case R_PAIR: same = siv(r.r.a, q.r.a, e) && siv(r.r.b, q.r.b, eb); break;
        case R_NUM: same = rawnan(r.r.n) ? q.r.n.bad == INVALID || q.r.n.bad == MARK : !q.r.n.bad && raweq(r.r.n, q.r.n.b); break;
        case R_BOOL: same = r.r.q == q.r.q; break; default: ; }
      if (p.ex && (std::string(op.name) == "lower(x)" || std::string(op.name) == "upper(x)")) same = true;
      if ((p.ex || p.ey || p.nv) && (std::string(op.name).substr(0, 3) == "cer" || std::string(op.name).substr(0, 3) == "pos")) same = true;      // these take no invalid operands; the bounds of an empty interval are the policy's
      if (misuse) c.fail(name + "|" + sp->s(u, p), std::string(op.name) + " with" + sp->s(u, p) + " uses the base type or a policy outside the documented interface: " + misuse);
      else if (!same) c.fail(name + "|" + sp->s(u, p), std::string(op.name) + " with" + sp->s(u, p) + ": the ordinary instantiation gives " + shc(r, r.r.t == R_PAIR && is_empty_set(r.r.a), r.r.t == R_PAIR && is_empty_set(r.r.b)) + ", the one with user-supplied types " + shc(q, e, eb));
    }, [=](u64 s) { return name + ":" + sp->s(u, sp->at(u, s)); });
  }
}
template<class B, int CFG> void all(const std::string& n, bool hw, int level, bool pairs) {
  typedef Opaque<B, CFG> O;
  typedef bn::interval<B, bil::policies<bil::save_state<bil::rounded_transc_std<B> >, bil::checking_base<B> > > PO;
  typedef typename bil::change_checking<typename bil::change_rounding<bn::interval<O>, ORound<O> >::type, OCheck<O, CFG> >::type IO;
  static const char* cn[] = {"invalid unequal to itself, empty is a pair of invalids", "empty is [2,1], invalid equal to itself", "empty is a pair of marks"};
  lockstep<B, PO, IO, CFG>(n + " (" + cn[CFG] + ")", hw, level, pairs, false);
  if (CFG == 2) lockstep<B, PO, typename bil::unprotect<IO>::type, CFG>(n + " unprotected", hw, level, pairs, true);
}
void register_suites() {
  bool th = tier();
#ifdef UNIT_MINI
  all<M31, 0>("mini<3,1>", false, 0, true); all<M31, 1>("mini<3,1>", false, 0, true); all<M31, 2>("mini<3,1>", false, 0, true);
  all<M32, 0>("mini<3,2>", false, 0, th); all<M32, 1>("mini<3,2>", false, 0, th); all<M32, 2>("mini<3,2>", false, 0, th);
#else
  all<double, 0>("double", true, th ? 1 : 0, th); all<double, 1>("double", true, th ? 1 : 0, true); all<double, 2>("double", true, th ? 1 : 0, th);
  if (th) all<float, 1>("float", true, 1, true);
#endif
}
MC_MAIN
