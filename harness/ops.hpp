// Every public operation of the library as a table entry, so that cross-cutting properties visit all of them.
#pragma once
#include "sets.hpp"
#include <boost/numeric/interval/compare/certain.hpp>
#include <boost/numeric/interval/compare/explicit.hpp>

enum { UX = 1, UY = 2, UV = 4, UW = 8, UK = 16, INPLACE = 32, TRANS = 64 };
template<class I> struct Args { typedef typename I::base_type T; I x, y; T v, w; int k; };
enum RType { R_IV, R_PAIR, R_NUM, R_BOOL, R_NONE };
template<class I> struct Res {
  typedef typename I::base_type T;
  RType t; I a, b; T n; int q;
  Res() : t(R_NONE), a(T(), T(), true), b(T(), T(), true), n(), q(0) {}
  static Res iv(const I& r) { Res z; z.t = R_IV; z.a = r; return z; }
  static Res pair(const std::pair<I, I>& p) { Res z; z.t = R_PAIR; z.a = p.first; z.b = p.second; return z; }
  static Res num(const T& n) { Res z; z.t = R_NUM; z.n = n; return z; }
  static Res boolean(bool b) { Res z; z.t = R_BOOL; z.q = b; return z; }
};
template<class T> inline std::string show(const T& a) { return Vals<T>::sv(a); }
template<class I> inline std::string show_iv(const I& r) { return is_empty_set(r) ? "empty" : "[" + show(r.lower()) + ", " + show(r.upper()) + "]"; }
template<class I> inline std::string show_res(const Res<I>& r) {
  switch (r.t) { case R_IV: return show_iv(r.a); case R_PAIR: return show_iv(r.a) + " and " + show_iv(r.b); case R_NUM: return rawnan(r.n) ? "NaN" : show(r.n); case R_BOOL: return r.q ? "true" : "false"; default: return "nothing"; }
}
template<class I, class I2> inline bool same_iv(const I& a, const I2& b) {
  bool ea = is_empty_set(a), eb = is_empty_set(b);
  if (ea || eb) return ea == eb;
  return raweq(a.lower(), b.lower()) && raweq(a.upper(), b.upper());
}
template<class I, class I2> inline bool same_res(const Res<I>& a, const Res<I2>& b) {
  if (a.t != b.t) return false;
  switch (a.t) { case R_IV: return same_iv(a.a, b.a); case R_PAIR: return same_iv(a.a, b.a) && same_iv(a.b, b.b);
    case R_NUM: return (rawnan(a.n) && rawnan(b.n)) || raweq(a.n, b.n); case R_BOOL: return a.q == b.q; default: return true; }
}
// a foreign interval type and numbers of a foreign type, for conversions
template<class T> struct Foreign { typedef bn::interval<typename std::conditional<std::is_same<T, double>::value, long double, double>::type> type;
  static type get(int k) { typedef typename type::base_type F; type z; F e = std::ldexp(F(1), std::is_same<F, double>::value ? -40 : -60); z.assign(F(k) - e, F(k) + e); /* no rounding here */ return z; } };
template<int E, int M, class H> struct Foreign<mini<E, M, H> > { typedef mini<4, 3> F; typedef bn::interval<F, bil::policies<bil::rounded_math<F>, bil::checking_strict<F> > > type;
  static type get(int k) { type z; z.assign(F::code(k < 0 ? 128 + 16 - 5 * k : 16 + 5 * k), F::code(k < 0 ? 128 + 9 : 62 + 7 * k)); return z; } };
// emp: is an empty result expected for non-empty, valid arguments?  0 no, 1 yes, -1 left open
template<class I> struct Op { const char* name; unsigned uses; Res<I> (*f)(Args<I>&); int (*emp)(const Args<I>&); };

template<class T> inline bool lt0(const T& a) { return rawlt(a, T(0)); }
template<class T> inline bool gt0(const T& a) { return rawlt(T(0), a); }
template<class I> inline bool zz(const I& x) { return !lt0(x.lower()) && !gt0(x.upper()); }
template<class T> inline bool isfin(const T& a) {
  if constexpr (std::numeric_limits<T>::has_infinity) return isnum(a) && rawlt(a, std::numeric_limits<T>::infinity()) && rawlt(T(-std::numeric_limits<T>::infinity()), a);
  else return true;
}
template<class I> inline bool bounded(const I& x) { return isfin(x.lower()) && isfin(x.upper()); }
template<class I> inline bool whole_(const I& x) { return !isfin(x.lower()) && !isfin(x.upper()); }
// sine and friends reduce by 2*pi: a type that cannot hold it is outside their use
template<class I> inline bool trig_ok(const I& x) { typedef typename I::base_type T; return bounded(x) && rawlt(T(7), std::numeric_limits<T>::max()); }
template<class I> inline bool outside1(const I& x) { typedef typename I::base_type T; return rawlt(x.upper(), T(-1)) || rawlt(T(1), x.lower()); }

template<class I, bool TR> std::vector<Op<I> > all_ops() {
  typedef typename I::base_type T; typedef Args<I> A; typedef Res<I> R;
  std::vector<Op<I> > v;
#define OP_IV(N, U, EXPR, EMP) v.push_back(Op<I>{N, U, [](A& a) { return R::iv(EXPR); }, [](const A& a) -> int { (void)a; return EMP; }});
#define OP_NUM(N, U, EXPR) v.push_back(Op<I>{N, U, [](A& a) { return R::num(EXPR); }, [](const A&) -> int { return -1; }});
#define OP_BOOL(N, U, EXPR) v.push_back(Op<I>{N, U, [](A& a) { return R::boolean(EXPR); }, [](const A&) -> int { return -1; }});
#define OP_SELF(N, U, STMT, EMP) v.push_back(Op<I>{N, (U) | INPLACE, [](A& a) { STMT; return R(); }, [](const A& a) -> int { (void)a; return EMP; }});
  OP_IV("+x", UX, +a.x, 0) OP_IV("-x", UX, -a.x, 0)
  OP_IV("x+y", UX | UY, a.x + a.y, 0) OP_IV("x+v", UX | UV, a.x + a.v, 0) OP_IV("v+x", UX | UV, a.v + a.x, 0)
  OP_IV("x-y", UX | UY, a.x - a.y, 0) OP_IV("x-v", UX | UV, a.x - a.v, 0) OP_IV("v-x", UX | UV, a.v - a.x, 0)
  OP_IV("x*y", UX | UY, a.x * a.y, 0) OP_IV("x*v", UX | UV, a.x * a.v, 0) OP_IV("v*x", UX | UV, a.v * a.x, 0)
  OP_IV("x/y", UX | UY, a.x / a.y, zz(a.y)) OP_IV("x/v", UX | UV, a.x / a.v, raweq(a.v, T(0))) OP_IV("v/x", UX | UV, a.v / a.x, zz(a.x))
  OP_SELF("x+=y", UX | UY, a.x += a.y, 0) OP_SELF("x+=v", UX | UV, a.x += a.v, 0) OP_SELF("x-=y", UX | UY, a.x -= a.y, 0) OP_SELF("x-=v", UX | UV, a.x -= a.v, 0)
  OP_SELF("x*=y", UX | UY, a.x *= a.y, 0) OP_SELF("x*=v", UX | UV, a.x *= a.v, 0) OP_SELF("x/=y", UX | UY, a.x /= a.y, zz(a.y)) OP_SELF("x/=v", UX | UV, a.x /= a.v, raweq(a.v, T(0)))
  OP_IV("add(v,w)", UV | UW, bil::add<I>(a.v, a.w), 0) OP_IV("sub(v,w)", UV | UW, bil::sub<I>(a.v, a.w), 0)
  OP_IV("mul(v,w)", UV | UW, bil::mul<I>(a.v, a.w), 0) OP_IV("div(v,w)", UV | UW, bil::div<I>(a.v, a.w), raweq(a.w, T(0)))
  OP_IV("multiplicative_inverse(x)", UX, bil::multiplicative_inverse(a.x), zz(a.x))
  v.push_back(Op<I>{"division parts", UX | UY, [](A& a) { bool b; I p = bil::division_part1(a.x, a.y, b); if (!b) return R::iv(p); I q = bil::division_part2(a.x, a.y, b); return R::pair(std::make_pair(p, q)); },
    [](const A& a) -> int { return zz(a.y); }});
  OP_IV("square(x)", UX, bn::square(a.x), 0) OP_IV("pow(x,k)", UX | UK, bn::pow(a.x, a.k), zz(a.x) ? (a.k > 0 ? 0 : a.k == 0 ? -1 : 1) : 0)
  OP_IV("sqrt(x)", UX, bn::sqrt(a.x), lt0(a.x.upper()))
  OP_IV("nth_root(x,k)", UX | UK, bn::nth_root(a.x, a.k < 1 ? 1 - a.k : a.k), (a.k < 1 ? 1 - a.k : a.k) % 2 == 0 && lt0(a.x.upper()))
  OP_IV("fmod(x,y)", UX | UY, bn::fmod(a.x, a.y), -1) OP_IV("fmod(x,v)", UX | UV, bn::fmod(a.x, a.v), -1) OP_IV("fmod(v,x)", UX | UV, bn::fmod(a.v, a.x), -1)
  OP_IV("abs(x)", UX, bn::abs(a.x), 0)
  OP_IV("min(x,y)", UX | UY, bn::min(a.x, a.y), 0) OP_IV("min(x,v)", UX | UV, bn::min(a.x, a.v), 0) OP_IV("min(v,x)", UX | UV, bn::min(a.v, a.x), 0)
  OP_IV("max(x,y)", UX | UY, bn::max(a.x, a.y), 0) OP_IV("max(x,v)", UX | UV, bn::max(a.x, a.v), 0) OP_IV("max(v,x)", UX | UV, bn::max(a.v, a.x), 0)
  OP_IV("hull(x,y)", UX | UY, bn::hull(a.x, a.y), 0) OP_IV("hull(x,v)", UX | UV, bn::hull(a.x, a.v), 0) OP_IV("hull(v,x)", UX | UV, bn::hull(a.v, a.x), 0)
  OP_IV("interval::hull(v,w)", UV | UW, I::hull(a.v, a.w), 0)
  OP_IV("intersect(x,y)", UX | UY, bn::intersect(a.x, a.y), rawlt(a.x.upper(), a.y.lower()) || rawlt(a.y.upper(), a.x.lower()))
  v.push_back(Op<I>{"bisect(x)", UX, [](A& a) { return R::pair(bn::bisect(a.x)); }, [](const A& a) -> int { return whole_(a.x) ? -1 : 0; }});
  OP_IV("widen(x,v)", UX | UV, bn::widen(a.x, a.v), lt0(a.v) ? -1 : 0)
  OP_NUM("width(x)", UX, bn::width(a.x)) OP_NUM("median(x)", UX, bn::median(a.x)) OP_NUM("norm(x)", UX, bn::norm(a.x))
  OP_NUM("lower(x)", UX, bn::lower(a.x)) OP_NUM("upper(x)", UX, bn::upper(a.x)) OP_NUM("checked_lower(x)", UX, bn::checked_lower(a.x)) OP_NUM("checked_upper(x)", UX, bn::checked_upper(a.x))
  OP_BOOL("empty(x)", UX, bn::empty(a.x)) OP_BOOL("zero_in(x)", UX, bn::zero_in(a.x)) OP_BOOL("in(v,x)", UX | UV, bn::in(a.v, a.x)) OP_BOOL("singleton(x)", UX, bn::singleton(a.x))
  OP_BOOL("subset(x,y)", UX | UY, bn::subset(a.x, a.y)) OP_BOOL("proper_subset(x,y)", UX | UY, bn::proper_subset(a.x, a.y)) OP_BOOL("overlap(x,y)", UX | UY, bn::overlap(a.x, a.y)) OP_BOOL("equal(x,y)", UX | UY, bn::equal(a.x, a.y))
  OP_BOOL("x<y", UX | UY, a.x < a.y) OP_BOOL("x<=y", UX | UY, a.x <= a.y) OP_BOOL("x>y", UX | UY, a.x > a.y) OP_BOOL("x>=y", UX | UY, a.x >= a.y) OP_BOOL("x==y", UX | UY, a.x == a.y) OP_BOOL("x!=y", UX | UY, a.x != a.y)
  OP_BOOL("x<v", UX | UV, a.x < a.v) OP_BOOL("x<=v", UX | UV, a.x <= a.v) OP_BOOL("x>v", UX | UV, a.x > a.v) OP_BOOL("x>=v", UX | UV, a.x >= a.v) OP_BOOL("x==v", UX | UV, a.x == a.v) OP_BOOL("x!=v", UX | UV, a.x != a.v)
  OP_IV("I(x)", UX, I(a.x), 0) OP_IV("I(v)", UV, I(a.v), 0) OP_IV("I(v,w)", UV | UW, I(a.v, a.w), rawlt(a.w, a.v)) OP_IV("I(int k)", UK, I(a.k), 0)
  OP_SELF("x=v", UX | UV, a.x = a.v, 0) OP_SELF("x=y", UX | UY, a.x = a.y, 0) OP_SELF("x=int k", UX | UK, a.x = a.k, 0)
  OP_IV("I(long double k+2^-60)", UK, I(a.k + 0x1p-60L), 0) OP_SELF("x=long double k+2^-60", UX | UK, a.x = a.k + 0x1p-60L, 0)
  OP_IV("I(foreign interval)", UK, I(Foreign<T>::get(a.k)), 0) OP_SELF("x=foreign interval", UX | UK, a.x = Foreign<T>::get(a.k), 0)
  OP_SELF("x.assign(v,w)", UV | UW, a.x.assign(a.v, a.w), rawlt(a.w, a.v))
  OP_IV("pi", 0, bil::pi<I>(), 0) OP_IV("pi_half", 0, bil::pi_half<I>(), 0) OP_IV("pi_twice", 0, bil::pi_twice<I>(), 0)
  if constexpr (std::numeric_limits<T>::has_infinity) { OP_IV("interval::whole()", 0, I::whole(), 0) }
  if constexpr (TR) {
    OP_IV("exp(x)", UX | TRANS, bn::exp(a.x), 0) OP_IV("log(x)", UX | TRANS, bn::log(a.x), !gt0(a.x.upper()))
    OP_IV("sin(x)", UX | TRANS, bn::sin(a.x), trig_ok(a.x) ? 0 : -1) OP_IV("cos(x)", UX | TRANS, bn::cos(a.x), trig_ok(a.x) ? 0 : -1) OP_IV("tan(x)", UX | TRANS, bn::tan(a.x), trig_ok(a.x) ? 0 : -1)
    OP_IV("asin(x)", UX | TRANS, bn::asin(a.x), outside1(a.x)) OP_IV("acos(x)", UX | TRANS, bn::acos(a.x), outside1(a.x)) OP_IV("atan(x)", UX | TRANS, bn::atan(a.x), 0)
    OP_IV("sinh(x)", UX | TRANS, bn::sinh(a.x), 0) OP_IV("cosh(x)", UX | TRANS, bn::cosh(a.x), 0) OP_IV("tanh(x)", UX | TRANS, bn::tanh(a.x), 0)
    OP_IV("asinh(x)", UX | TRANS, bn::asinh(a.x), 0) OP_IV("acosh(x)", UX | TRANS, bn::acosh(a.x), rawlt(a.x.upper(), T(1)))
    OP_IV("atanh(x)", UX | TRANS, bn::atanh(a.x), outside1(a.x) ? 1 : !rawlt(a.x.lower(), T(1)) || !rawlt(T(-1), a.x.upper()) ? -1 : 0)
  }
#undef OP_IV
#undef OP_NUM
#undef OP_BOOL
#undef OP_SELF
  return v;
}

// The argument space of one operation: the product of the domains of the operands it uses.
template<class T> struct Space {
  std::shared_ptr<Vals<T> > d; std::vector<int> ks; int nnum;     // nnum: numbers (d->n, plus one when NaN is included)
  std::vector<int> nums;                                           // admissible number indices
  Space(int level, bool empties, bool nan, const std::vector<int>& k) : d(std::make_shared<Vals<T> >(level, empties)), ks(k) {
    for (int i = 0; i < d->n; i++) if (d->fin[i]) nums.push_back(i);
    if (nan && d->nan) nums.push_back(d->n);
  }
  u64 size(unsigned u) const { u64 n = 1; if (u & UX) n *= d->it.size(); if (u & UY) n *= d->it.size(); if (u & UV) n *= nums.size(); if (u & UW) n *= nums.size(); if (u & UK) n *= ks.size(); return n; }
  struct Pt { const typename Vals<T>::It *x, *y; int v, w, k; bool ex, ey, nv, nw; };
  Pt at(unsigned u, u64 s) const {
    Pt p; p.x = p.y = &d->it[0]; p.v = p.w = nums[0]; p.k = 0;
    if (u & UX) { p.x = &d->it[s % d->it.size()]; s /= d->it.size(); }
    if (u & UY) { p.y = &d->it[s % d->it.size()]; s /= d->it.size(); }
    if (u & UV) { p.v = nums[s % nums.size()]; s /= nums.size(); }
    if (u & UW) { p.w = nums[s % nums.size()]; s /= nums.size(); }
    if (u & UK) { p.k = ks[s % ks.size()]; s /= ks.size(); }
    p.ex = (u & UX) && d->empty(*p.x); p.ey = (u & UY) && d->empty(*p.y); p.nv = (u & UV) && p.v >= d->n; p.nw = (u & UW) && p.w >= d->n;
    return p;
  }
  template<class I> Args<I> make(const Pt& p) const { return Args<I>{d->template make<I>(*p.x), d->template make<I>(*p.y), d->num(p.v), d->num(p.w), p.k}; }
  std::string s(unsigned u, const Pt& p) const {
    std::string r;
    if (u & UX) r += " x=" + d->s(*p.x); if (u & UY) r += " y=" + d->s(*p.y); if (u & UV) r += " v=" + d->s(p.v); if (u & UW) r += " w=" + d->s(p.w); if (u & UK) r += mc::fmtv(" k=%d", p.k);
    return r;
  }
};
inline const std::vector<int>& few_ks() { static const std::vector<int> v = {0, 1, 2, 3, 5, -1, -2, -3}; return v; }

// call an operation, classify its outcome
template<class I> struct Call { Kind k; Res<I> r; };
template<class I> Call<I> call(const Op<I>& op, Args<I>& a) {
  Call<I> c;
  try { c.r = op.f(a); c.k = VALUE; if (op.uses & INPLACE) { c.r = Res<I>::iv(a.x); } if (c.r.t == R_IV && is_empty_set(c.r.a)) c.k = EMPTY; }
  catch (bil::comparison_error&) { c.k = THROW_CMP; }
  catch (std::invalid_argument&) { c.k = THROW_NAN; }
  catch (std::runtime_error&) { c.k = THROW_EMPTY; }
  catch (std::exception&) { c.k = THROW_OTHER; }
  return c;
}
template<class I> inline bool same_call(const Call<I>& a, const Call<I>& b) { return a.k == b.k && (a.k != VALUE || same_res(a.r, b.r)); }
template<class I> inline std::string show_call(const Call<I>& c) { return c.k == VALUE ? show_res(c.r) : kind_name(c.k); }
