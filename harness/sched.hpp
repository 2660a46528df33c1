// Controlled scheduler: real threads of one process run one at a time; at every hook point (base-type operation, copy, comparison,
// rounding-mode access, entry and exit of a library function) the running thread may be preempted, exactly where the schedule says.
#pragma once
#include <atomic>
#include <climits>
#include <ctime>
#include <functional>
#include <thread>
#include <vector>
#include <sched.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sched {
struct Switch { long at; int to; };          // when the running thread reaches its at-th point, hand over to thread `to`
struct Thr { std::function<void()> job; std::atomic<int> go{0}, done{1}; long count = 0; std::thread th; };
struct World {
  std::vector<Thr*> t; std::atomic<int> owner{-1}, maingo{0}; std::atomic<long> progress{0}; std::vector<Switch> plan; std::atomic<size_t> next{0}; int stolen = 0;
};
inline World& world() { static World* w = new World; return *w; }
inline thread_local int self = -1;           // index of a controlled thread while it runs a job
inline thread_local long solo = -1;          // counts points of an uncontrolled run when >= 0
inline void fwake(std::atomic<int>& f) { f.fetch_add(1); syscall(SYS_futex, (int*)&f, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
inline void fwait(std::atomic<int>& f, int seen, long ns) { struct timespec ts = {ns / 1000000000, ns % 1000000000}; syscall(SYS_futex, (int*)&f, FUTEX_WAIT_PRIVATE, seen, &ts, 0, 0); }

inline void wake(int who) { World& w = world(); w.owner.store(who); fwake(who < 0 ? w.maingo : w.t[who]->go); }
inline void await(int me, bool mayseize) {
  World& w = world();
  long p = w.progress; int idle = 0;
  for (;;) {
    int seen = w.t[me]->go.load();
    if (w.owner.load() == me) return;
    fwait(w.t[me]->go, seen, 50000000);
    if (w.owner.load() == me) return;
    // the thread holding the baton does not move: it waits for something this one holds (e.g. a static's guard); go on
    if (mayseize && w.progress == p) { if (++idle >= 4) { w.stolen++; w.owner.store(me); return; } } else { p = w.progress; idle = 0; }
  }
}
inline void point() {
  if (solo >= 0) { solo++; return; }
  if (self < 0) return;
  World& w = world(); Thr& me = *w.t[self];
  if (w.owner.load() != self) await(self, true);      // only after a seizure
  w.progress++; long c = me.count++;
  size_t n = w.next;
  if (n < w.plan.size() && w.plan[n].at == c) {
    int to = w.plan[n].to; w.next = n + 1;
    if (to != self && !w.t[to]->done) { wake(to); await(self, true); }
  }
}
inline void body(int i) {
  World& w = world();
  for (;;) {
    await(i, false);
    if (w.t[i]->done) { wake(-1); continue; }           // only after a seizure
    self = i; w.t[i]->job(); self = -1;
    w.progress++;
    w.t[i]->done = 1;
    int to = -1; for (size_t k = 0; k < w.t.size(); k++) if (!w.t[k]->done) { to = k; break; }
    w.next = w.plan.size();            // a finished thread ends the plan: the rest run to completion
    wake(to);
  }
}
// run jobs under the plan, thread `start` first; returns when all have finished
inline void run(const std::vector<std::function<void()> >& jobs, int start, const std::vector<Switch>& plan) {
  World& w = world();
  if (w.t.empty()) {       // hand-overs are cheapest on one processor; nothing here runs in parallel
    cpu_set_t all, one; CPU_ZERO(&one);
    if (sched_getaffinity(0, sizeof all, &all) == 0) { int n = CPU_COUNT(&all), k = getpid() % n; for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &all) && k-- == 0) { CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one); break; } }
    w.t.reserve(8);
  }
  while (w.t.size() < jobs.size()) { int i = w.t.size(); Thr* n = new Thr; w.t.push_back(n); n->th = std::thread(body, i); n->th.detach(); }
  for (size_t i = 0; i < jobs.size(); i++) { w.t[i]->job = jobs[i]; w.t[i]->count = 0; w.t[i]->done = 0; }
  w.plan = plan; w.next = 0;
  wake(start);
  for (;;) {
    int seen = w.maingo.load();
    bool all = true; for (size_t i = 0; i < jobs.size(); i++) if (!w.t[i]->done) all = false;
    if (all && w.owner.load() == -1) return;
    fwait(w.maingo, seen, 50000000);
  }
}
struct Hook { static void pt(int) { point(); } };
}  // namespace sched
