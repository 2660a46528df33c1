// C22: intervals are values: aliasing, in-place updates, history
#define MINI_TRANSC
#include "../harness/digest.hpp"
#include <utility>
#include <tuple>
using mc::Ctx; using mc::fmtv;

// ---- 1. aliasing: every pair of values, every way of naming an operand ------------------------------------------
template<class I> struct AOut { Kind k; I r; AOut() : k(VALUE), r(0, 0, true) {} };
template<class I, class F> AOut<I> attempt(F f) {
  AOut<I> o;
  try { f(o.r); o.k = is_empty_set(o.r) ? EMPTY : VALUE; }
  catch (bil::comparison_error&) { o.k = THROW_CMP; } catch (std::invalid_argument&) { o.k = THROW_NAN; } catch (std::runtime_error&) { o.k = THROW_EMPTY; } catch (std::exception&) { o.k = THROW_OTHER; }
  return o;
}
template<class I> struct Alias { const char* name; void (*act)(I& x, I& y); I (*ref)(const I& x, const I& y); };
// act works on the live objects, ref on independent copies of their values
template<class I> std::vector<Alias<I> > aliases() {
  typedef typename I::base_type T;
  std::vector<Alias<I> > v;
#define AL(N, ACT, ...) v.push_back(Alias<I>{N, [](I& x, I& y) { (void)y; ACT; }, [](const I& x, const I& y) -> I { (void)x; (void)y; __VA_ARGS__; }});
#define ALOP(OP) \
  AL("x " #OP "= y", x OP##= y, return x OP y) \
  AL("x " #OP "= x", x OP##= x, const I c(x); return x OP c) \
  AL("x " #OP "= x.lower()", x OP##= x.lower(), T v(x.lower()); return x OP v) \
  AL("x " #OP "= x.upper()", x OP##= x.upper(), T v(x.upper()); return x OP v) \
  AL("x " #OP "= y.lower()", x OP##= y.lower(), T v(y.lower()); return x OP v) \
  AL("x " #OP "= y.upper()", x OP##= y.upper(), T v(y.upper()); return x OP v) \
  AL("x = x " #OP " x", x = x OP x, const I c(x); return x OP c) \
  AL("x = y " #OP " x", x = y OP x, const I c(x), d(y); return d OP c) \
  AL("x = x.lower() " #OP " x", x = x.lower() OP x, T v(x.lower()); return v OP x) \
  AL("x = x.upper() " #OP " x", x = x.upper() OP x, T v(x.upper()); return v OP x) \
  AL("(x " #OP "= y) " #OP "= x", (x OP##= y) OP##= x, I c(x OP y); const I e(c); return c OP e) \
  AL("(x " #OP "= y) " #OP "= y", (x OP##= y) OP##= y, I c(x OP y); return c OP y)
  ALOP(+) ALOP(-) ALOP(*) ALOP(/)
  AL("x = x", x = x, return x) AL("x = y", x = y, return y)
  AL("x = x.lower()", x = x.lower(), T v(x.lower()); I r; r = v; return r)
  AL("x = x.upper()", x = x.upper(), T v(x.upper()); I r; r = v; return r)
  AL("x = y.upper()", x = y.upper(), T v(y.upper()); return I(v))
  AL("x.assign(x.lower(), x.upper())", x.assign(x.lower(), x.upper()), return I(x.lower(), x.upper()))
  AL("x.assign(x.upper(), x.lower())", x.assign(x.upper(), x.lower()), T a(x.upper()), b(x.lower()); I r; r.assign(a, b); return r)
  AL("x.assign(y.lower(), x.lower())", x.assign(y.lower(), x.lower()), T a(y.lower()), b(x.lower()); I r; r.assign(a, b); return r)
  AL("x.assign(x.upper(), y.upper())", x.assign(x.upper(), y.upper()), T a(x.upper()), b(y.upper()); I r; r.assign(a, b); return r)
  AL("x.assign(x.lower(), x.lower())", x.assign(x.lower(), x.lower()), T a(x.lower()); I r; r.assign(a, a); return r)
  AL("x.assign(x.upper(), x.upper())", x.assign(x.upper(), x.upper()), T a(x.upper()); I r; r.assign(a, a); return r)
  AL("x = hull(x, x.lower())", x = bn::hull(x, x.lower()), T v(x.lower()); const I c(x); return bn::hull(c, v))
  AL("x = hull(x.upper(), x)", x = bn::hull(x.upper(), x), T v(x.upper()); const I c(x); return bn::hull(v, c))
  AL("x = I::hull(x.upper(), x.lower())", x = I::hull(x.upper(), x.lower()), T a(x.upper()), b(x.lower()); return I::hull(a, b))
  AL("x = intersect(x, x)", x = bn::intersect(x, x), const I c(x); return bn::intersect(x, c))
  AL("x = hull(y, x)", x = bn::hull(y, x), const I c(x), e(y); return bn::hull(e, c))
  AL("x = min(x, x.upper())", x = bn::min(x, x.upper()), T v(x.upper()); return bn::min(x, v))
  AL("x = max(x.lower(), x)", x = bn::max(x.lower(), x), T v(x.lower()); return bn::max(v, x))
  AL("x = widen(x, x.upper()) (bound >= 0)", if (rawlt(x.upper(), T(0))) return; x = bn::widen(x, x.upper()), if (rawlt(x.upper(), T(0))) return x; T v(x.upper()); return bn::widen(x, v))
  AL("x = fmod(x, x) (positive)", if (!rawlt(T(0), x.lower())) return; x = bn::fmod(x, x), if (!rawlt(T(0), x.lower())) return x; const I c(x); return bn::fmod(x, c))
  AL("x = fmod(x, x.upper()) (positive)", if (!rawlt(T(0), x.upper())) return; x = bn::fmod(x, x.upper()), if (!rawlt(T(0), x.upper())) return x; T v(x.upper()); return bn::fmod(x, v))
  AL("x = -x", x = -x, const I c(x); return -c)
  AL("x = square(x)", x = bn::square(x), const I c(x); return bn::square(c))
  AL("x = pow(x, 3)", x = bn::pow(x, 3), const I c(x); return bn::pow(c, 3))
  AL("x = bisect(x).second", x = bn::bisect(x).second, const I c(x); return bn::bisect(c).second)
  AL("x = division_part1(x, x)", bool b; x = bil::division_part1(x, x, b), bool b; const I c(x); return bil::division_part1(x, c, b))
  AL("x = division_part1(y, x)", bool b; x = bil::division_part1(y, x, b), bool b; const I c(x), e(y); return bil::division_part1(e, c, b))
  AL("swap(x, y)", using std::swap; swap(x, y), return y)
  AL("x.set_empty via copy", I c(x); x = c; c = y, return x)
  AL("pass x by reference and assign to it inside", (void)(x = (y = x, x)), return x)
#undef AL
#undef ALOP
  return v;
}
template<class I> void alias_suite(const std::string& cfg, bool hw, int level, bool empties) {
  typedef typename I::base_type T;
  auto d = std::make_shared<Vals<T> >(level, empties); u64 N = d->it.size();
  auto al = std::make_shared<std::vector<Alias<I> > >(aliases<I>());
  std::string name = "alias/" + cfg;
  mc::add(name, hw, fmtv("%s: every ordered pair of the %llu interval values, %zu statements naming the same objects in every way, against the same computation on separate copies", cfg.c_str(), (unsigned long long)N, al->size()), N * N,
    [=](u64 s, Ctx& c) {
      const auto &a = d->it[s / N], &b = d->it[s % N];
      I x0 = d->template make<I>(a), y0 = d->template make<I>(b);
      for (const Alias<I>& al1 : *al) {
        I x(x0), y(y0), keep(x);
        const std::string nm(al1.name); bool ychanges = nm == "swap(x, y)" || nm.find("inside") != std::string::npos;
        AOut<I> o = attempt<I>([&](I& r) { al1.act(x, y); r = x; });
        const I cx(x0), cy(y0);
        AOut<I> e = attempt<I>([&](I& r) { r = al1.ref(cx, cy); });
        c.hit(); c.outcome(hbits(o.r.lower()) * 31 + hbits(o.r.upper()) + o.k);
        auto bad = [&](const std::string& w) { c.fail(nm + "|" + d->s(a) + "|" + d->s(b), nm + " with x=" + d->s(a) + " y=" + d->s(b) + ": " + w); };
        if (o.k != e.k || (o.k == VALUE && !same_iv(o.r, e.r))) { bad("gives " + (o.k == VALUE ? show_iv(o.r) : kind_name(o.k)) + ", on separate copies " + (e.k == VALUE ? show_iv(e.r) : kind_name(e.k))); return; }
        if (!ychanges && !bit_same_iv(y, y0)) { bad("y was modified to " + show_iv(y)); return; }
        if (!bit_same_iv(keep, x0)) { bad("a copy of x was modified"); return; }
        if (!bit_same_iv(cx, x0) || !bit_same_iv(cy, y0)) { bad("an operand of the value computation was modified"); return; }
      }
    }, [=](u64 s) { return name + ": x=" + d->s(d->it[s / N]) + " y=" + d->s(d->it[s % N]); });
}

// ---- 2. programs: every sequence of in-place statements over two live intervals, against an explicit transition table ---
// a bound by reference, when it is a number at all
template<class T> const T& fb(const T& v) { static const T one(1); return isfin(v) ? v : one; }
template<class I> struct Step { const char* name; void (*act)(I* o); void (*ref)(const I* o, I* r); };
template<class I> std::vector<Step<I> > steps() {
  std::vector<Step<I> > v;
#define ST(N, ACT, RA, RB) v.push_back(Step<I>{N, [](I* o) { I &a = o[0], &b = o[1]; (void)a; (void)b; ACT; }, [](const I* o, I* r) { const I a(o[0]), b(o[1]), a2(o[0]); (void)a; (void)b; (void)a2; r[0] = RA; r[1] = RB; }});
  ST("a+=b", a += b, a + b, b) ST("a-=a", a -= a, a - a2, b) ST("b-=a", b -= a, a, b - a) ST("a*=b", a *= b, a * b, b) ST("a*=a", a *= a, a * a2, b)
  ST("b/=a", b /= a, a, b / a) ST("a/=a", a /= a, a / a2, b) ST("a+=a.lower()", a += fb(a.lower()), a + fb(a2.lower()), b) ST("a-=a.upper()", a -= fb(a.upper()), a - fb(a2.upper()), b)
  ST("b*=a.upper()", b *= fb(a.upper()), a, b * fb(a2.upper())) ST("a=b", a = b, b, b) ST("swap", std::swap(a, b), b, a) ST("a=-a", a = -a, -a, b) ST("a=hull(a,b)", a = bn::hull(a, b), bn::hull(a, b), b)
  ST("b=intersect(a,b)", b = bn::intersect(a, b), a, bn::intersect(a, b)) ST("a=square(a)", a = bn::square(a), bn::square(a), b) ST("a=sqrt(a)", a = bn::sqrt(a), bn::sqrt(a), b)
  ST("b.assign(b.lower(),b.lower())", b.assign(fb(b.lower()), fb(b.lower())), a, I(fb(b.lower()), fb(b.lower()))) ST("a=a.upper()", a = fb(a.upper()), I(fb(a.upper())), b)
  ST("(a,b)=bisect(a)", (std::tie(a, b) = bn::bisect(a)), bn::bisect(a).first, bn::bisect(a2).second) ST("a=1/a", a = bil::multiplicative_inverse(a), bil::multiplicative_inverse(a), b) ST("b=pow(b,3)", b = bn::pow(b, 3), a, bn::pow(b, 3))
  ST("a+=1", a += typename I::base_type(1), a + typename I::base_type(1), b) ST("b=max(b,a)", b = bn::max(b, a), a, bn::max(b, a))
#undef ST
  return v;
}
template<class T> void program_suite(const std::string& cfg, bool hw, int depth) {
  typedef IBase<T> I;                                     // empties are ordinary states here
  auto d = std::make_shared<Vals<T> >(0, true, false); int N = d->it.size(), E = N - 1;      // last one: empty
  // canonical index of an interval value (signed zeros identified)
  const int M = T::Tab::N;
  auto map = std::make_shared<std::vector<int> >(M * M, -1);
  for (int a = 0; a < M; a++) for (int b = 0; b < M; b++) for (int i = 0; i < E && (*map)[a * M + b] < 0; i++)
    if (raweq(d->v[d->it[i].l], T::code(a)) && raweq(d->v[d->it[i].u], T::code(b))) (*map)[a * M + b] = i;
  auto find = [=](const I& r) -> int { return is_empty_set(r) ? E : (*map)[r.lower().c * M + r.upper().c]; };
  auto st = std::make_shared<std::vector<Step<I> > >(steps<I>());
  int K = st->size();
  std::vector<int> can; for (int i = 0; i < N; i++) if (i == E || find(d->template make<I>(d->it[i])) == i) can.push_back(i);
  auto trans = std::make_shared<std::vector<int> >((u64)N * N * K, -1);
  for (int i : can) for (int j : can) { I o[2] = {d->template make<I>(d->it[i]), d->template make<I>(d->it[j])};
    for (int k = 0; k < K; k++) { I r[2]; (*st)[k].ref(o, r); int p = find(r[0]), q = find(r[1]); (*trans)[((u64)i * N + j) * K + k] = p < 0 || q < 0 ? -1 : p * N + q; } }
  auto init = std::make_shared<std::vector<int> >();
  // initial states: every second canonical value for a, every value from a spread for b
  for (size_t i = 0; i < can.size(); i += (depth > 3 ? 9 : 7)) for (size_t j = 0; j < can.size(); j += (depth > 3 ? 11 : 6)) init->push_back(can[i] * N + can[j]);
  u64 P = 1; for (int i = 0; i < depth; i++) P *= K;
  std::string name = fmtv("programs depth %d/", depth) + cfg;
  mc::add(name, hw, fmtv("%s: every sequence of %d of the %d in-place statements over two live intervals from %zu initial states; %zu*%zu model states", cfg.c_str(), depth, K, init->size(), can.size(), can.size()), P * init->size(),
    [=](u64 s, Ctx& c) {
      u64 p = s / init->size(); int m = (*init)[s % init->size()];
      I o[2] = {d->template make<I>(d->it[m / N]), d->template make<I>(d->it[m % N])};
      std::string hist;
      for (int t = 0; t < depth; t++) {
        int k = p % K; p /= K;
        int nx = (*trans)[(u64)m * K + k];
        (*st)[k].act(o); c.hit();
        int g0 = find(o[0]), g1 = find(o[1]), g = g0 < 0 || g1 < 0 ? -1 : g0 * N + g1;
        if (g != nx) { c.fail(name + fmtv("|%d|%s", m, (*st)[k].name), std::string("after ") + fmtv("%d statements", t) + " from a=" + d->s(d->it[m / N]) + " b=" + d->s(d->it[m % N]) + ", " + (*st)[k].name + " gives a=" + show_iv(o[0]) + " b=" + show_iv(o[1]) + ", the same operation on fresh copies " + (nx < 0 ? "?" : "a=" + d->s(d->it[nx / N]) + " b=" + d->s(d->it[nx % N]))); return; }
        c.outcome(g);
        if (nx < 0) return;
        m = nx;
      }
    }, [=](u64 s) { u64 p = s / init->size(); int m = (*init)[s % init->size()]; std::string r = name + ": a=" + d->s(d->it[m / N]) + " b=" + d->s(d->it[m % N]) + " then"; for (int t = 0; t < depth; t++) { r += std::string(" ") + (*st)[p % K].name + ";"; p /= K; } return r; });
}

// ---- 3. history: the result of a call after any earlier calls is the result of the call in a fresh process ------
struct HCall { std::string name; std::function<u64(std::string*)> f; };      // f returns a digest of the outcome; 0 when an operand was modified
template<class T> T pick(int i) { static const double v[] = {1, -1.0 / 3, 3, 0.1, 2}; return T(v[i]); }
template<class I, bool TR> void collect(std::vector<HCall>& v, const std::string& cfg, bool thin, bool empties) {
  typedef typename I::base_type T;
  static std::vector<Op<I> > ops = all_ops<I, TR>();
  std::fesetround(FE_TONEAREST);
  std::vector<I> xs = {I(pick<T>(1), pick<T>(2), true), I(pick<T>(0), pick<T>(4), true), I(pick<T>(4), std::numeric_limits<T>::infinity(), true), I(pick<T>(0), pick<T>(2), true)};   // bounds shared between them: a result remembered under part of its arguments shows
  std::vector<T> nums = {pick<T>(3), pick<T>(2)}; std::vector<int> ks = {3, -2};
  if (empties) xs.push_back(I::empty());
  for (const Op<I>& op : ops) {
    unsigned u = op.uses; int cnt = 0;
    for (size_t i = 0; i < (u & UX ? xs.size() : 1); i++) for (size_t j = 0; j < (u & UY ? xs.size() : 1); j++) for (size_t n = 0; n < (u & UV ? 2 : 1); n++) for (size_t w = 0; w < (u & UW ? 2 : 1); w++) for (size_t k = 0; k < (u & UK ? 2 : 1); k++) {
      if ((u & UX) && (u & UY) && i == 2 && j == 2) continue;
      if (thin && cnt++) continue;
      int mode = (i + 2 * j + n + v.size()) & 3;
      Args<I> a0{xs[i], xs[j], nums[n], nums[w], ks[k]};
      const Op<I> o = op;
      v.push_back(HCall{cfg + " " + op.name + fmtv(" (arguments %zu %zu %zu %zu %zu, mode %d)", i, j, n, w, k, mode), [=](std::string* show) -> u64 {
        Args<I> a = a0; Amb<T>::set(mode);
        Call<I> r = call(o, a);
        Amb<T>::set(0); mini_mode = 0;
        if (!(u & INPLACE) && !bit_same_iv(a.x, a0.x)) { if (show) *show = "modified its first operand"; return 0; }
        if (!bit_same_iv(a.y, a0.y) || !bit_same(a.v, a0.v) || !bit_same(a.w, a0.w)) { if (show) *show = "modified an operand"; return 0; }
        if (show) *show = show_call(r);
        return digest_call(r);
      }});
    }
  }
}
void history(const std::string& cfg, bool hw, const std::vector<HCall>& calls, int depth) {
  auto v = std::make_shared<std::vector<HCall> >(calls); u64 N = v->size();
  u64* ref = (u64*)mmap(0, N * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto done = std::make_shared<bool>(false);
  // references: each call alone in a fresh process
  { std::vector<pid_t> ps; for (u64 i = 0; i < N; i++) { pid_t p = fork(); if (p == 0) { signal(SIGABRT, SIG_DFL); ref[i] = (*v)[i].f(nullptr); _exit(0); } ps.push_back(p); if (ps.size() == 16) { for (pid_t q : ps) waitpid(q, 0, 0); ps.clear(); } } for (pid_t q : ps) waitpid(q, 0, 0); }
  u64 P = 1; for (int i = 0; i < depth; i++) P *= N;
  std::string name = fmtv("history depth %d/", depth) + cfg;
  mc::add(name, hw, fmtv("%s: every sequence of %d of %llu calls (every public operation, mixed interval types and ambient modes); each result compared with the call's result in a process that makes no other call", cfg.c_str(), depth, (unsigned long long)N), P,
    [=](u64 s, Ctx& c) {
      u64 p = s;
      for (int t = 0; t < depth; t++) {
        u64 i = p % N; p /= N;
        u64 g = (*v)[i].f(nullptr); c.hit(); c.outcome(g);
        if (g != ref[i] || g == 0) {
          std::string w; (*v)[i].f(&w);
          c.fail(name + "|" + (*v)[i].name, (*v)[i].name + (g == 0 ? ": " + w : " differs from its result in a fresh process; repeated now: " + w)); return;
        }
      }
    }, [=](u64 s) { std::string r = name + ":"; for (int t = 0; t < depth; t++) { r += " [" + (*v)[s % N].name + "]"; s /= N; } return r; });
}
void register_suites() {
#ifdef UNIT_MINI
  typedef mini<2, 2> m5; typedef mini<3, 2> m6;
  alias_suite<IBase<m5> >("mini<2,2> base", false, 0, true);
  alias_suite<IStrict<m5> >("mini<2,2> default", false, 0, false);
  alias_suite<IStd<m5> >("mini<2,2> std", false, 0, true);
  if (tier()) alias_suite<IBase<m6> >("mini<3,2> base", false, 0, true);
  program_suite<m5>("mini<2,2>", false, 3);
  program_suite<mini<2, 1> >("mini<2,1>", false, tier() ? 5 : 4);
  std::vector<HCall> h; typedef bn::interval<m6, bil::policies<bil::save_state<bil::rounded_transc_opp<m6> >, bil::checking_base<m6> > > I6;
  collect<I6, true>(h, "mini<3,2>", false, true);
  history("mini<3,2>", false, h, 2);
#else
  int l = tier() ? 1 : 0;
  alias_suite<IBase<double> >("double base", true, l, true);
  alias_suite<IStrict<double> >("double default", true, l, false);
  alias_suite<IStd<float> >("float std", true, l, true);
  alias_suite<IBase<long double> >("long double base", true, l, true);
  std::vector<HCall> h, t; using namespace bil;
  typedef bn::interval<double, policies<save_state<rounded_transc_opp<double> >, checking_base<double> > > D;
  typedef bn::interval<double, policies<save_state<rounded_transc_std<double> >, checking_strict<double> > > DS;
  typedef bn::interval<float, policies<save_state<rounded_transc_opp<float> >, checking_base<float> > > F;
  typedef bn::interval<long double, policies<save_state<rounded_transc_opp<long double> >, checking_base<long double> > > L;
  collect<D, true>(h, "double", false, true); collect<DS, true>(h, "double std strict", false, false); collect<F, true>(h, "float", false, true); collect<L, true>(h, "long double", tier() == 0, true);
  history("double, float, long double", true, h, 2);
  collect<D, true>(t, "double", true, true); collect<F, true>(t, "float", tier() == 0, true);
  history("double, float", true, t, 3);
#endif
}
MC_MAIN
