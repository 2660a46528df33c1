// C21: concurrent use: every call behaves as if it were alone, whatever other threads do
#define MINI_TRANSC
#include "../harness/digest.hpp"
#include "../harness/sched.hpp"
#include <boost/numeric/interval/io.hpp>
#include <sstream>
using mc::Ctx; using mc::fmtv;

#ifdef UNIT_HW      // every entry and exit of a library function and every access to the rounding mode is a point
extern "C" {
void __cyg_profile_func_enter(void*, void*) { sched::point(); }
void __cyg_profile_func_exit(void*, void*) { sched::point(); }
int __real_fesetround(int); int __real_fegetround(void);
int __wrap_fesetround(int m) { sched::point(); return __real_fesetround(m); }
int __wrap_fegetround(void) { sched::point(); return __real_fegetround(); }
}
#endif

struct COut { u64 dig; int after, mutated, pad; };
// a call with fixed operands; `shared`: on the one copy of the operands all threads see
struct SCall {
  std::string name; bool inplace; int variants;
  std::function<std::function<void()>(int variant, int mode, bool shared, COut* o)> job;
};
template<class T> T num_(double d) { return T(d); }
template<class I> struct Data { Args<I> shared[3], orig[3]; };
template<class I> std::shared_ptr<Data<I> > data() {
  typedef typename I::base_type T; const T inf = std::numeric_limits<T>::infinity();
  auto mk = [](double a, double b) { return I(num_<T>(a), num_<T>(b), true); };
  Args<I> A[3] = {{mk(-1.0 / 3, 3), mk(1, 2), num_<T>(.375), num_<T>(2), 3}, {mk(1, 2), I(num_<T>(2), inf, true), num_<T>(3), num_<T>(-1), -2}, {mk(.25, .75), mk(-3, -.75), num_<T>(1.5), num_<T>(.75), 2}};
  auto d = std::make_shared<Data<I> >(Data<I>{{A[0], A[1], A[2]}, {A[0], A[1], A[2]}});
  return d;
}
template<class I> u64 text_hash(const I& x) { std::ostringstream s; s << x; u64 h = 5; for (unsigned char c : s.str()) h = h * 1000003 + c; return h & 0x7fffffff; }
template<class I> void extra(std::vector<Op<I> >& v) {
  typedef Args<I> A; typedef Res<I> R;
  auto add = [&](const char* n, unsigned u, Res<I> (*f)(A&)) { v.push_back(Op<I>{n, u, f, [](const A&) -> int { return -1; }}); };
  add("rounding object held: x*y+x unprotected", UX | UY, [](A& a) { typename I::traits_type::rounding rnd; typedef typename bil::unprotect<I>::type U; U x(a.x), y(a.y), r = x * y + x; return R::iv(I(r)); });
  add("rounding object held: x-y unprotected, then x/y", UX | UY, [](A& a) { I r(a.x); { typename I::traits_type::rounding rnd; typedef typename bil::unprotect<I>::type U; U x(a.x), y(a.y), d = x - y; r = I(d); } return R::pair(std::make_pair(r, a.x / a.y)); });
  add("nested rounding objects", UX | UY, [](A& a) { typename I::traits_type::rounding r1; typename I::base_type s = r1.add_up(a.x.upper(), a.y.upper()); { typename I::traits_type::rounding r2; s = r2.sub_down(s, a.x.lower()); } s = r1.mul_up(s, a.y.lower()); return R::num(s); });
  add("certain and possible comparisons", UX | UY, [](A& a) { int q = bil::cerlt(a.x, a.y) + 2 * bil::poslt(a.x, a.y) + 4 * bil::cereq(a.x, a.y) + 8 * bil::posne(a.x, a.y) + 16 * bil::cerge(a.x, a.y) + 32 * bil::posgt(a.x, a.y); R r = R::boolean(false); r.q = q; return r; });
  add("print x", UX, [](A& a) { R r = R::boolean(false); r.q = text_hash(a.x); return r; });
  add("fresh program: (x+y)*(x-y)/x", UX | UY, [](A& a) { I s = a.x + a.y; I d = a.x - a.y; s *= d; s /= a.x; return R::iv(s); });
}
template<class I, bool TR> void collect(std::vector<SCall>& v, const std::string& cfg) {
  typedef typename I::base_type T;
  std::vector<Op<I> > ops = all_ops<I, TR>(); extra(ops);
  std::fesetround(FE_TONEAREST); mini_mode = 0;
  auto d = data<I>();
  for (const Op<I>& op : ops) {
    const Op<I> o = op; bool inplace = (op.uses & INPLACE) != 0;
    v.push_back(SCall{cfg + " " + op.name, inplace, (op.uses & (UX | UY | UV | UW | UK)) ? 3 : 1, [=](int variant, int mode, bool shared, COut* out) -> std::function<void()> {
      auto own = std::make_shared<Args<I> >(d->orig[variant]);
      return [=]() {
        Args<I>& a = shared && !inplace ? d->shared[variant] : *own;
        Amb<T>::set(mode);
        Call<I> r = call(o, a);
        struct Quiet { int s; long n; Quiet() : s(sched::self), n(sched::solo) { sched::self = -1; sched::solo = -1; } ~Quiet() { sched::self = s; sched::solo = n; } } quiet;   // judging is not part of the call
        out->after = Amb<T>::get();
        Amb<T>::set(0);
        out->dig = digest_call(r);
        const Args<I>& q = d->orig[variant];
        out->mutated = (!inplace && !bit_same_iv(a.x, q.x)) || !bit_same_iv(a.y, q.y) || !bit_same(a.v, q.v) || !bit_same(a.w, q.w);
      };
    }});
  }
}

// reference of every (call, variant, mode), and the number of points, from a process that does nothing else
struct Ref { COut o; long pts; };
static const int MODES[3] = {1, 2, 0};            // ambient mode of thread 0, 1, 2
struct Refs { Ref* r; int N; const Ref& at(int c, int var, int th) const { return r[(c * 3 + var) * 3 + th]; } };
Refs references(const std::vector<SCall>& v) {
  Refs R; R.N = v.size(); size_t n = v.size() * 9;
  R.r = (Ref*)mmap(0, n * sizeof(Ref), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> ps;
  auto reap = [&] { for (pid_t q : ps) { int st; waitpid(q, &st, 0); } ps.clear(); };
  fflush(stdout);
  for (size_t i = 0; i < n; i++) {
    int c = i / 9, var = i / 3 % 3, th = i % 3;
    if (var >= v[c].variants) continue;
    pid_t p = fork();
    if (p == 0) { auto j = v[c].job(var, MODES[th], false, &R.r[i].o); sched::solo = 0; j(); R.r[i].pts = sched::solo; _exit(0); }
    ps.push_back(p); if (ps.size() == 16) reap();
  }
  reap();
  return R;
}
// one schedule of several calls; reports what differs from the calls made alone
struct Job { int c, var; bool shared; };
template<class V> bool schedule(const V& v, const Refs& R, const std::vector<Job>& jobs, int start, const std::vector<sched::Switch>& plan, COut* outs) {
  std::vector<std::function<void()> > f;
  for (size_t t = 0; t < jobs.size(); t++) { outs[t] = COut{}; f.push_back(v[jobs[t].c].job(jobs[t].var, MODES[t], jobs[t].shared, &outs[t])); }
  sched::run(f, start, plan);
  (void)R; return true;
}
template<class V> void judge(const std::string& suite, const V& v, const Refs& R, const std::vector<Job>& jobs, const std::string& what, const COut* outs, Ctx& c) {
  for (size_t t = 0; t < jobs.size(); t++) {
    const Ref& e = R.at(jobs[t].c, jobs[t].var, t); const COut& o = outs[t];
    c.hit(); c.outcome(o.dig * 7 + jobs[t].c);
    std::string w;
    if (o.dig != e.o.dig) w = "returns something other than when it runs alone";
    else if (o.after != e.o.after) w = std::string("leaves its thread's rounding mode ") + mode_name(o.after) + ", alone it leaves it " + mode_name(e.o.after);
    else if (o.mutated && !e.o.mutated) w = "modified (or saw modified) an operand";
    if (!w.empty()) { c.fail(suite + "|" + v[jobs[t].c].name, what + fmtv(": the call of thread %zu, ", t) + v[jobs[t].c].name + ", " + w); return; }
  }
}
static std::string describe(const std::vector<SCall>& v, const std::vector<Job>& jobs, int start, const std::vector<sched::Switch>& plan) {
  std::string r;
  for (size_t t = 0; t < jobs.size(); t++) r += fmtv("thread %zu: ", t) + v[jobs[t].c].name + fmtv(" (operands %d%s, mode %s); ", jobs[t].var, jobs[t].shared ? ", shared" : "", mode_name(MODES[t]));
  r += fmtv("thread %d starts", start);
  for (auto& s : plan) r += fmtv(", at its point %ld hand over to thread %d", s.at, s.to);
  return r;
}
// a family of schedules: pairs of calls, with every placement of the preemptions
struct Fam { std::vector<Job> jobs; int start; u64 off, n0, n1; };
template<bool COLD> void pairs(const std::string& name, const std::string& bound, bool hw, std::shared_ptr<std::vector<SCall> > v, const Refs& R, const std::vector<std::pair<Job, Job> >& ps, int preemptions, bool bothstarts) {
  auto fam = std::make_shared<std::vector<Fam> >(); u64 n = 0;
  for (auto& p : ps) for (int st = 0; st < (bothstarts ? 2 : 1); st++) {
    const Job* j[2] = {&p.first, &p.second};
    Fam f; f.jobs = {p.first, p.second}; f.start = st; f.off = n;
    f.n0 = R.at(j[st]->c, j[st]->var, st).pts + 1; f.n1 = preemptions > 1 ? R.at(j[1 - st]->c, j[1 - st]->var, 1 - st).pts + 1 : 1;
    fam->push_back(f); n += f.n0 * f.n1;
  }
  auto locate = [=](u64 s, std::vector<Job>& jobs, int& start, std::vector<sched::Switch>& plan) {
    size_t lo = 0, hi = fam->size() - 1; while (lo < hi) { size_t m = (lo + hi + 1) / 2; if ((*fam)[m].off <= s) lo = m; else hi = m - 1; }
    const Fam& f = (*fam)[lo]; s -= f.off; jobs = f.jobs; start = f.start;
    long i = s / f.n1, j = s % f.n1;
    plan.clear(); plan.push_back({i, 1 - start}); if (f.n1 > 1) plan.push_back({j, start});
  };
  mc::add(name, hw, bound + fmtv("; %zu pairs of calls, every placement of at most %d preemption(s): %llu schedules", ps.size(), preemptions, (unsigned long long)n), n,
    [=](u64 s, Ctx& c) {
      std::vector<Job> jobs; int start; std::vector<sched::Switch> plan; locate(s, jobs, start, plan);
      if (!COLD) { COut o[2]; schedule(*v, R, jobs, start, plan, o); judge(name, *v, R, jobs, describe(*v, jobs, start, plan), o, c); }
      else {
        static COut* o = (COut*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        pid_t p = fork();
        if (p == 0) { schedule(*v, R, jobs, start, plan, o); _exit(0); }
        int st; waitpid(p, &st, 0);
        if (st != 0) { c.fail(name + "|crash", describe(*v, jobs, start, plan) + ": the process crashed"); return; }
        judge(name, *v, R, jobs, describe(*v, jobs, start, plan), o, c);
      }
    }, [=](u64 s) { std::vector<Job> jobs; int start; std::vector<sched::Switch> plan; locate(s, jobs, start, plan); return name + ": " + describe(*v, jobs, start, plan); });
}
// three threads, each placement of one hand-over in each of two of them
void triples(const std::string& name, const std::string& bound, bool hw, std::shared_ptr<std::vector<SCall> > v, const Refs& R, const std::vector<int>& ids, bool shared) {
  auto fam = std::make_shared<std::vector<Fam> >(); u64 n = 0;
  for (int a : ids) for (int b : ids) for (int c : ids) {
    Fam f; auto va = [&](int q, int w) { return w % (*v)[q].variants; };
    f.jobs = {Job{a, va(a, 0), shared}, Job{b, va(b, 1), shared}, Job{c, va(c, 2), shared}}; f.start = 0; f.off = n;
    f.n0 = R.at(a, va(a, 0), 0).pts + 1; f.n1 = R.at(b, va(b, 1), 1).pts + 1; fam->push_back(f); n += f.n0 * f.n1;
  }
  auto locate = [=](u64 s, std::vector<Job>& jobs, std::vector<sched::Switch>& plan) {
    size_t lo = 0, hi = fam->size() - 1; while (lo < hi) { size_t m = (lo + hi + 1) / 2; if ((*fam)[m].off <= s) lo = m; else hi = m - 1; }
    const Fam& f = (*fam)[lo]; s -= f.off; jobs = f.jobs; plan = {{(long)(s / f.n1), 1}, {(long)(s % f.n1), 2}};
  };
  mc::add(name, hw, bound + fmtv("; three threads, all triples of %zu calls, the first preempted at every point by the second, that one at every point by the third: %llu schedules", ids.size(), (unsigned long long)n), n,
    [=](u64 s, Ctx& c) { std::vector<Job> jobs; std::vector<sched::Switch> plan; locate(s, jobs, plan); COut o[3]; schedule(*v, R, jobs, 0, plan, o); judge(name, *v, R, jobs, describe(*v, jobs, 0, plan), o, c); },
    [=](u64 s) { std::vector<Job> jobs; std::vector<sched::Switch> plan; locate(s, jobs, plan); return name + ": " + describe(*v, jobs, 0, plan); });
}
void family(const std::string& cfg, bool hw, std::shared_ptr<std::vector<SCall> > v, long maxpts) {
  Refs R = references(*v); int N = v->size();
  // the calls themselves, alone: they must not disturb their operands or their thread's mode
  mc::add("alone/" + cfg, hw, fmtv("%s: each of %d calls alone", cfg.c_str(), N), N, [=](u64 s, Ctx& c) {
    for (int var = 0; var < (*v)[s].variants; var++) for (int t = 0; t < 3; t++) { const Ref& r = R.at(s, var, t); c.hit(); c.outcome(r.o.dig);
      if (r.o.dig == 0) c.fail("alone|" + (*v)[s].name, (*v)[s].name + " crashed alone");
      if (r.o.mutated) c.fail("alone|" + (*v)[s].name, (*v)[s].name + " modified an operand"); }
  }, [=](u64 s) { return (*v)[s].name + fmtv(" (%ld points)", R.at(s, 0, 0).pts); });
  auto P = [&](int a, int va, int b, int vb, bool sh) { return std::make_pair(Job{a, va % (*v)[a].variants, sh}, Job{b, vb % (*v)[b].variants, sh}); };
  std::vector<std::pair<Job, Job> > cold, two, one;
  long total = 0, mx = 0; for (int i = 0; i < N; i++) { total += R.at(i, 0, 0).pts; mx = std::max(mx, R.at(i, 0, 0).pts); }
  if (getenv("PTS")) for (int i = 0; i < N; i++) fprintf(stderr, "%ld %s\n", R.at(i,0,0).pts, (*v)[i].name.c_str());
  fprintf(stderr, "  %s: %d calls, %ld points, longest %ld\n", cfg.c_str(), N, total, mx);
  for (int i = 0; i < N; i++) {
    cold.push_back(P(i, 0, i, 1, false));
    if (R.at(i, 0, 0).pts <= maxpts) { two.push_back(P(i, 0, i, 0, true)); two.push_back(P(i, 0, i, 1, false)); if (tier()) { two.push_back(P(i, 1, i, 2, false)); two.push_back(P(i, 2, i, 0, false)); } }
    if (R.at(i, 0, 0).pts <= 1500) for (int j = 0; j < N; j++) { one.push_back(P(i, 0, j, 1, false)); if (tier()) one.push_back(P(i, 2, j, 2, true)); }
  }
  pairs<true>("fresh process, 1 preemption/" + cfg, cfg + ": the same operation in two threads of a process in which neither has run before", hw, v, R, cold, 1, false);
  pairs<false>("any two calls, 1 preemption/" + cfg, cfg + ": every ordered pair of calls (the preempted one of at most 1500 points) with different operands and ambient modes", hw, v, R, one, 1, false);
  pairs<false>("same operation, 2 preemptions/" + cfg, cfg + ": the same operation in two threads, on shared and on different operands", hw, v, R, two, 2, true);
  std::vector<int> ids; const char* some[] = {"x*y", "x/v", "rounding object held: x*y+x unprotected", "x+=y", "sqrt(x)", "width(x)"};
  for (int i = 0; i < N; i++) for (int k = 0; k < (hw && !tier() ? 4 : 6); k++) { size_t l = (*v)[i].name.size(), m = strlen(some[k]) + 1; if (l > m && (*v)[i].name.compare(l - m, m, std::string(" ") + some[k]) == 0) { ids.push_back(i); break; } }
  if (!tier() && ids.size() > 5) ids.resize(5);
  triples("three threads/" + cfg, cfg, hw, v, R, ids, false);
}
void register_suites() {
  using namespace bil;
#ifdef UNIT_MINI
  typedef mini<3, 2, sched::Hook> M; M(1) + M(1); { typedef Foreign<M>::F F; F(1) + F(1); exp(F(1)); exp(M(1)); sqrt(M(1)); } std::numeric_limits<M>::infinity();
  { auto v = std::make_shared<std::vector<SCall> >(); collect<bn::interval<M, policies<save_state<rounded_transc_opp<M> >, checking_base<M> > >, true>(*v, "opp"); family("mini<3,2> opp", false, v, tier() ? 1200 : 150); }
  { auto v = std::make_shared<std::vector<SCall> >(); collect<bn::interval<M, policies<save_state<rounded_transc_std<M> >, checking_strict<M> > >, true>(*v, "std"); family("mini<3,2> std", false, v, tier() ? 1200 : 150); }
#else
  { auto v = std::make_shared<std::vector<SCall> >();
    collect<bn::interval<double, policies<save_state<rounded_transc_opp<double> >, checking_base<double> > >, true>(*v, "double opp"); family("double opp", true, v, tier() ? 300 : 110); }
  { auto v = std::make_shared<std::vector<SCall> >();
    collect<bn::interval<double>, false>(*v, "double default"); collect<bn::interval<float, policies<save_state<rounded_arith_std<float> >, checking_base<float> > >, false>(*v, "float std");
    if (tier()) collect<bn::interval<long double, policies<save_state<rounded_arith_opp<long double> >, checking_base<long double> > >, false>(*v, "long double opp");
    family("double, float, long double", true, v, tier() ? 300 : 110); }
#endif
}
MC_MAIN
