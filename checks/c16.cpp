// C16: an exception injected at every base-type operation and policy action of every interval operation
#define MINI_TRANSC
#include "../harness/fault.hpp"
#include "../harness/ops.hpp"
using mc::Ctx; using mc::fmtv;
static const char* kind_s(int k) { static const char* n[] = {"arithmetic", "comparison", "copy", "conversion", "mode", "function", "checking policy"}; return n[k]; }

template<class I> std::string bits(const I& x) { return show(x.lower()) + "," + show(x.upper()); }
template<class I> struct Snap {       // raw contents of the operands
  typedef typename I::base_type T; char b[sizeof(T) * 6];
  Snap(const Args<I>& a) { memcpy(b, &a.x.lower(), sizeof(T)); memcpy(b + sizeof(T), &a.x.upper(), sizeof(T)); memcpy(b + 2 * sizeof(T), &a.y.lower(), sizeof(T)); memcpy(b + 3 * sizeof(T), &a.y.upper(), sizeof(T)); memcpy(b + 4 * sizeof(T), &a.v, sizeof(T)); memcpy(b + 5 * sizeof(T), &a.w, sizeof(T)); }
  bool same_x(const Snap& o) const { return !memcmp(b, o.b, 2 * sizeof(T)); }
  bool same_rest(const Snap& o) const { return !memcmp(b + 2 * sizeof(T), o.b + 2 * sizeof(T), 4 * sizeof(T)); }
};
// runs op with the k-th point failing; 0: completed, 1: the injected exception, 2: a policy exception
template<class I> int guarded(const Op<I>& op, Args<I>& a, long k, Injected& got, Call<I>* res, long* points) {
  Call<I> c; c.k = VALUE; int st = 0;
  FaultHook::arm(k);
  try { c.r = op.f(a); }
  catch (Injected& e) { got = e; st = 1; }
  catch (bil::comparison_error&) { c.k = THROW_CMP; st = 2; }
  catch (std::invalid_argument&) { c.k = THROW_NAN; st = 2; }
  catch (std::runtime_error&) { c.k = THROW_EMPTY; st = 2; }
  catch (...) { c.k = THROW_OTHER; st = 2; }
  long n = FaultHook::disarm();
  if (points) *points = n;
  if (res) { if (!st) { if (op.uses & INPLACE) c.r = Res<I>::iv(a.x); if (c.r.t == R_IV && is_empty_set(c.r.a)) c.k = EMPTY; } *res = c; }
  return st;
}
template<class T, class R, class C> void suite(const std::string& cfg, bool hw, int level, bool empties, int which) {
  typedef bn::interval<T, bil::policies<R, checking_points<T, C> > > I;
  auto sp = std::make_shared<Space<T> >(level, empties, true, few_ks());
  auto ops = std::make_shared<std::vector<Op<I> > >(all_ops<I, true>());
  bool small = !numlt(T(7), std::numeric_limits<T>::max());
  for (size_t q = 0; q < ops->size(); q++) {
    const Op<I> op = (*ops)[q]; unsigned u = op.uses;
    if (small && ((u & TRANS) || std::string(op.name).substr(0, 2) == "pi")) continue;
    if (which == 1 && (u & UX) && (u & (UY | UV))) continue;
    std::string name = cfg + " " + op.name, nm = op.name;
    bool compound = nm == "x+=y" || nm == "x+=v" || nm == "x-=y" || nm == "x-=v" || nm == "x*=y" || nm == "x*=v" || nm == "x/=y" || nm == "x/=v";
    mc::add(name, hw, "every combination of operands, then one fault at every point of the call (calls of more than 400 points: the first 299 and the last 100)", sp->size(u), [=](u64 s, Ctx& c) {
      typename Space<T>::Pt p = sp->at(u, s);
      Args<I> a = sp->template make<I>(p);
      Snap<I> before(a);
      Injected got{0, 0}; Call<I> ref; long n = 0;
      int amb = s & 3;
      auto bad = [&](long k, int kind, const std::string& w) { Amb<T>::set(0); c.fail(name + "|" + sp->s(u, p), std::string(op.name) + " with" + sp->s(u, p) + (k ? fmtv(", exception at point %ld (%s)", k, kind_s(kind)) : std::string(", no injected exception")) + ": " + w); };
      Amb<T>::set(amb);
      int st = guarded(op, a, 0, got, &ref, &n);
      int after = Amb<T>::get();
      c.hit(); c.outcome(n * 8 + ref.k);
      Snap<I> s1(a);
      if (after != amb) { bad(0, 0, "mode not restored"); return; }
      if (!s1.same_rest(before) || (!(u & INPLACE) && !s1.same_x(before))) { bad(0, 0, "an operand that is only read was modified"); return; }
      if (st == 2 && compound && !s1.same_x(before)) { bad(0, 0, "the policy's exception left x modified: " + bits(a.x)); return; }
      for (long k = 1; k <= n; k++) {
        if (k == 300 && n > 400) k = n - 99;                // long calls (iterated roots): the first 299 and the last 100 points
        Args<I> b = sp->template make<I>(p);
        int m = (amb + k) & 3; Amb<T>::set(m);
        long reached = 0;
        int st2 = guarded(op, b, k, got, (Call<I>*)0, &reached);
        int aft = Amb<T>::get(); Amb<T>::set(0);
        c.hit();
        if (st2 != 1 && reached < k) {                       // no fault happened: the call is shorter now (one-time initialisation is over)
          if (aft != m) { bad(0, 0, std::string("entered in mode ") + mode_name(m) + ", left in " + mode_name(aft)); return; }
          break;
        }
        if (st2 != 1 || got.id != k) { bad(k, got.kind, st2 == 0 ? "the exception was swallowed" : st2 == 2 ? "another exception reached the caller" : "a different exception object reached the caller"); return; }
        if (aft != m) { bad(k, got.kind, std::string("entered in mode ") + mode_name(m) + ", left in " + mode_name(aft)); return; }
        Snap<I> s2(b);
        if (!s2.same_rest(before) || (!(u & INPLACE) && !s2.same_x(before))) { bad(k, got.kind, "an operand that is only read was modified"); return; }
        if (compound && got.kind != PT_COPY && !s2.same_x(before)) { bad(k, got.kind, "the left operand changed: " + bits(b.x)); return; }
      }
      // and the failures left nothing behind
      Args<I> d = sp->template make<I>(p); Call<I> again;
      Amb<T>::set(amb); guarded(op, d, 0, got, &again, 0); Amb<T>::set(0);
      c.hit();
      if (!same_call(again, ref)) bad(0, 0, "after the failures the same call gives " + show_call(again) + ", before " + show_call(ref));
    }, [=](u64 s) { return name + ":" + sp->s(u, sp->at(u, s)); });
  }
}
void register_suites() {
  using namespace bil;
#ifdef UNIT_MINI
  typedef mini<2, 1, FaultHook> m4; typedef mini<3, 2, FaultHook> m6;
  suite<m4, save_state<rounded_transc_opp<m4> >, checking_base<m4> >("mini<2,1> opp base", false, 0, true, 0);
  suite<m4, save_state<rounded_transc_std<m4> >, checking_catch_nan<m4, checking_no_empty<m4> > >("mini<2,1> std catch_nan<no_empty>", false, 0, false, 0);
  suite<m6, save_state<rounded_transc_opp<m6> >, checking_strict<m6> >("mini<3,2> opp strict", false, 0, false, 1);
  suite<m6, save_state<rounded_transc_std<m6> >, checking_base<m6> >("mini<3,2> std base", false, 0, true, 1);
  if (tier()) { typedef mini<2, 2, FaultHook> m5; suite<m5, save_state<rounded_transc_std<m5> >, checking_base<m5> >("mini<2,2> std base", false, 0, true, 0);
    suite<m5, save_state<rounded_transc_opp<m5> >, checking_catch_nan<m5> >("mini<2,2> opp catch_nan", false, 0, true, 0); }
#else
  int l = tier() ? 0 : -1;
  suite<thr, save_state<rounded_transc_opp<thr> >, checking_base<thr> >("double-based opp base", true, l, true, 0);
  suite<thr, save_state<rounded_transc_std<thr> >, checking_strict<thr> >("double-based std strict", true, l, false, tier() ? 0 : 1);
#endif
}
MC_MAIN
