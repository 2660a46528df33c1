// C13: checking policies
#define MINI_TRANSC
#include "../harness/ops.hpp"
using mc::Ctx; using mc::fmtv;

struct Pol { bool empties, nandet, nancatch, noempty; };   // what the policy knows
template<class T, class C> using PI = bn::interval<T, bil::policies<bil::save_state<bil::rounded_transc_opp<T> >, C> >;

template<class T, class C> void suite(const std::string& cfg, bool hw, int level, Pol pol, bool few = false) {
  typedef PI<T, C> I; typedef PI<T, bil::checking_base<T> > B;
  auto sp = std::make_shared<Space<T> >(level, pol.empties, pol.nandet, few_ks());
  auto ops = std::make_shared<std::vector<Op<I> > >(all_ops<I, true>());
  auto bops = std::make_shared<std::vector<Op<B> > >(all_ops<B, true>());
  for (size_t q = 0; q < ops->size(); q++) {
    const Op<I> op = (*ops)[q]; const Op<B> bop = (*bops)[q]; unsigned u = op.uses;
    if (few && (u & UX) && (u & UY)) continue;
    std::string name = cfg + " " + op.name;
    mc::add(name, hw, "every combination of operands (ordinary, empty in four encodings, NaN numbers) of this operation", sp->size(u), [=](u64 s, Ctx& c) {
      typename Space<T>::Pt p = sp->at(u, s);
      Args<I> a = sp->template make<I>(p);
      Call<I> r = call(op, a);
      c.hit(); c.outcome(r.k * 7 + (r.k == VALUE && r.r.t != R_BOOL ? hbits(r.r.t == R_NUM ? r.r.n : r.r.a.lower()) : r.r.q));
      auto bad = [&](const std::string& w) { c.fail(name + "|" + sp->s(u, p), std::string(op.name) + " with" + sp->s(u, p) + ": " + show_call(r) + "; " + w); };
      bool anyempty = p.ex || p.ey, anynan = p.nv || p.nw;
      std::string nm = op.name;
      bool cmp = r.r.t == R_BOOL || r.k == THROW_CMP;
      bool isrel = nm[0] == 'x' && (nm[1] == '<' || nm[1] == '>' || nm[1] == '!' || (nm[1] == '=' && nm[2] == '='));
      if (isrel) {
        if (anynan && pol.nancatch) { if (r.k != THROW_NAN) bad("expected the policy's invalid_argument"); return; }
        if (anyempty || anynan) { if (r.k != THROW_CMP) bad("expected comparison_error"); return; }
        if (r.k != VALUE && r.k != THROW_CMP) bad("unexpected exception"); return;
      }
      bool xdead = nm == "x=v" || nm == "x=y" || nm == "x=int k" || nm == "x=long double k+2^-60" || nm == "x=foreign interval";       // the old value of x does not matter
      if (xdead) anyempty = p.ey;
      if (anynan && pol.nancatch) {
        // an invalid number must be reported, unless an empty operand already settled the answer
        if (r.k == THROW_NAN) return;
        if (anyempty && (r.k == EMPTY || r.k == VALUE)) return;
        bad("expected the policy's invalid_argument"); return;
      }
      bool hull = nm.find("hull") != std::string::npos;
      if (hull) {
        bool nothing = ((u & UX) && (u & UY)) ? p.ex && p.ey : (u & UX) ? p.ex && p.nv : p.nv && p.nw;
        if (nothing) { if (pol.noempty ? r.k != THROW_EMPTY : r.k != EMPTY) bad("expected the empty set"); }
        else if (r.k != VALUE) bad("hull must ignore empty and invalid operands");
        else if (!anyempty && !anynan) return;
        return;
      }
      if (anyempty || anynan) {
        Res<I> e;
        if (r.r.t == R_BOOL && r.k == VALUE) {
          if (nm == "empty(x)" ? !r.r.q : (nm == "in(v,x)" || nm == "zero_in(x)" || nm == "singleton(x)" || nm == "overlap(x,y)") ? r.r.q : false) bad("wrong answer for an empty operand");
          return;
        }
        if (nm == "lower(x)" || nm == "upper(x)") return;
        if (r.r.t == R_NUM && r.k == VALUE) {
          if (nm == "width(x)" ? !raweq(r.r.n, T(0)) : !rawnan(r.r.n)) bad(nm == "width(x)" ? "the width of the empty set is zero" : "expected NaN");
          return;
        }
        if (r.k == VALUE && r.r.t == R_PAIR) { if (!is_empty_set(r.r.a) || !is_empty_set(r.r.b)) bad("expected empty intervals"); return; }
        if (pol.noempty ? r.k != THROW_EMPTY : r.k != EMPTY) bad("expected the empty set");
        return;
      }
      // ordinary operands: empty only when the result set is empty, and exactly then the no-empty policies throw
      Args<I> a0 = sp->template make<I>(p);
      int emp = op.emp(a0);
      Args<B> ab = sp->template make<B>(p);
      Call<B> rb = call(bop, ab);
      if (rb.k > EMPTY) { bad("the same call with checking_base throws"); return; }
      if (emp == 1 && rb.k != EMPTY) { bad("checking_base should give the empty set"); return; }
      if (emp == 0 && (rb.k == EMPTY || (rb.r.t == R_PAIR && (is_empty_set(rb.r.a) || is_empty_set(rb.r.b))))) { bad("an empty (invalid) result for a non-empty set of values"); return; }
      if (emp == -1 && pol.nancatch && r.k == THROW_NAN) return;      // outside the operation's documented domain
      if (pol.noempty && emp == 1) { if (r.k != THROW_EMPTY) bad("expected the policy's runtime_error"); return; }
      if (pol.noempty && emp == -1) { if (r.k > THROW_EMPTY) bad("unexpected exception"); return; }
      if (r.k > EMPTY) { bad("unexpected exception"); return; }
      if (r.k != rb.k || (r.k == VALUE && !same_res(r.r, rb.r))) bad("differs from checking_base: " + show_call(rb));
      (void)cmp;
    }, [=](u64 s) { return name + ":" + sp->s(u, sp->at(u, s)); });
  }
}
template<class T> void all_policies(const std::string& t, bool hw, int level) {
  using namespace bil;
  suite<T, checking_base<T> >(t + " checking_base", hw, level, Pol{true, true, false, false});
  suite<T, checking_no_nan<T> >(t + " no_nan", hw, level, Pol{true, false, false, false});
  suite<T, checking_catch_nan<T> >(t + " catch_nan", hw, level, Pol{true, true, true, false});
  suite<T, checking_no_empty<T> >(t + " no_empty", hw, level, Pol{false, true, false, true});
  suite<T, checking_strict<T> >(t + " strict", hw, level, Pol{false, false, false, true});
  suite<T, checking_catch_nan<T, checking_no_empty<T> > >(t + " catch_nan<no_empty>", hw, level, Pol{false, true, true, true});
  suite<T, checking_no_empty<T, checking_catch_nan<T> > >(t + " no_empty<catch_nan>", hw, level, Pol{false, true, true, true});
}
void register_suites() {
#ifdef UNIT_MINI
  all_policies<mini<2, 2> >("mini<2,2>", false, 0);
  typedef mini<3, 2> m6;
  suite<m6, bil::checking_base<m6> >("mini<3,2> checking_base", false, 0, Pol{true, true, false, false});
  suite<m6, bil::checking_catch_nan<m6, bil::checking_no_empty<m6> > >("mini<3,2> catch_nan<no_empty>", false, 0, Pol{false, true, true, true});
#else
  all_policies<double>("double", true, tier() ? 1 : 0);
  suite<double, bil::checking_base<double> >("double checking_base wide", true, 10, Pol{true, true, false, false}, true);
  suite<double, bil::checking_catch_nan<double, bil::checking_no_empty<double> > >("double catch_nan<no_empty> wide", true, 10, Pol{false, true, true, true}, true);
  suite<float, bil::checking_base<float> >("float checking_base", true, tier() ? 1 : 0, Pol{true, true, false, false});
#endif
}
MC_MAIN
