// Bounded exhaustive exploration engine.
//
// A check is a list of suites.  A suite is a finite, explicitly indexed space of states 0..n-1; its body runs
// the real library code in that state and compares what it does with an independent oracle.  The engine visits
// EVERY state (forked workers take chunks from a shared counter), counts states / judged transitions /
// distinct outcomes, turns crashes, failed asserts, unexpected exceptions and non-termination into violations,
// and reports the smallest violating state of the first violating suite.  No sampling anywhere.
#pragma once
#include <atomic>
#include <cassert>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cfenv>
#include <exception>
#include <fstream>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

typedef uint64_t u64;

struct Worker { std::atomic<u64> cur, ticks; };
struct Rec { char key[512]; char msg[2048]; };
struct Shared {
  std::atomic<u64> next, minfail, evals, executed, known_hits;
  std::atomic<int> lock;
  std::atomic<unsigned char> bits[1 << 16];
  u64 fail_state; Rec rec;
  Worker w[64];
  char known_seen[64][256]; std::atomic<int> nknown;
};
static Shared* S = nullptr;

inline std::set<std::string>& known_keys() { static std::set<std::string> k; return k; }

inline void lock() { int z = 0; while (!S->lock.compare_exchange_weak(z, 1)) { z = 0; usleep(50); } }
inline void unlock() { S->lock = 0; }

struct Ctx {
  u64 state = 0, evals = 0; bool failed = false;
  // one judged transition
  void hit() { ++evals; }
  // an observed outcome (counted as distinct outcomes, through a 2^16-bit table)
  void outcome(u64 h) {
    h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
    S->bits[h & 0xffff].store(1, std::memory_order_relaxed);
  }
  // key identifies the failing call with its inputs (for known findings); msg explains it.
  void fail(const std::string& key, const std::string& msg) {
    if (known_keys().count(key)) {
      S->known_hits++;
      lock();
      bool seen = false; int n = S->nknown;
      for (int i = 0; i < n; i++) if (key == S->known_seen[i]) seen = true;
      if (!seen && n < 64) { snprintf(S->known_seen[n], 256, "%s", key.c_str()); S->nknown = n + 1; }
      unlock();
      return;
    }
    failed = true;
    lock();
    if (state < S->minfail || (state == S->minfail && S->rec.msg[0] == 0)) {
      S->minfail = state; S->fail_state = state;
      snprintf(S->rec.key, sizeof S->rec.key, "%s", key.c_str());
      snprintf(S->rec.msg, sizeof S->rec.msg, "%s", msg.c_str());
    }
    unlock();
  }
};

struct Suite {
  std::string name;
  u64 n;
  std::function<void(u64, Ctx&)> body;
  std::function<std::string(u64)> describe;
  bool hw = true;     // runs on a hardware number format (counted as traces validated against the implementation)
  std::string bound;  // human description of the explored space
};

inline std::vector<Suite>& suites() { static std::vector<Suite> s; return s; }
inline void add(const std::string& name, bool hw, const std::string& bound, u64 n,
                std::function<void(u64, Ctx&)> body, std::function<std::string(u64)> describe) {
  Suite s; s.name = name; s.n = n; s.body = body; s.describe = describe; s.hw = hw; s.bound = bound;
  suites().push_back(s);
}

inline std::string fmtv(const char* f, ...) {
  char b[1800]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}

inline std::string jesc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}

inline void run_state(const Suite& s, u64 i, Ctx& c) {
  c.state = i;
  std::fesetround(FE_TONEAREST);
  try { s.body(i, c); }
  catch (std::exception& e) {
    std::fesetround(FE_TONEAREST);
    c.fail(s.name + "|exception", std::string("unexpected exception: ") + e.what());
  } catch (...) {
    std::fesetround(FE_TONEAREST);
    c.fail(s.name + "|exception", "unexpected exception of unknown type");
  }
  std::fesetround(FE_TONEAREST);
}

inline void worker(const Suite& s, int w, u64 chunk) {
  signal(SIGINT, SIG_DFL);
  Ctx c;
  for (;;) {
    u64 a = S->next.fetch_add(chunk);
    if (a >= s.n) break;
    u64 b = a + chunk < s.n ? a + chunk : s.n;
    for (u64 i = a; i < b; i++) {
      if (i > S->minfail) break;
      S->w[w].cur = i; S->w[w].ticks++;
      run_state(s, i, c);
      S->executed++;
    }
    S->evals += c.evals; c.evals = 0;
  }
  S->evals += c.evals;
  S->w[w].cur = ~0ull;
}

// Runs every state of s (or only those in [lo,hi)). Returns false if a violation was recorded in S.
inline void record_crash(const Suite&, u64 st, const std::string& msg) {
  Ctx c; c.state = st;
  c.fail("crash", msg);
}

inline bool explore(const Suite& s, int jobs, double limit) {
  S->next = 0; S->minfail = ~0ull; S->rec.msg[0] = 0; S->rec.key[0] = 0; S->evals = 0; S->executed = 0;
  u64 chunk = s.n / (jobs * 64); if (chunk < 1) chunk = 1; if (chunk > 4096) chunk = 4096;
  std::vector<pid_t> pid(jobs);
  fflush(stdout);
  auto start = [&](int w) {
    S->w[w].cur = ~0ull;
    pid_t p = fork();
    if (p == 0) {
      struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
      int fd = dup(2); (void)fd;
      worker(s, w, chunk); _exit(0);
    }
    return p;
  };
  for (int w = 0; w < jobs; w++) pid[w] = start(w);
  typedef std::chrono::steady_clock clk;
  std::vector<u64> last(jobs, 0); std::vector<clk::time_point> t(jobs, clk::now());
  int live = jobs;
  while (live > 0) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) {
      for (int w = 0; w < jobs; w++) if (pid[w] == p) {
        pid[w] = 0; live--;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
          u64 cur = S->w[w].cur; S->lock = 0;
          if (cur != ~0ull)
            record_crash(s, cur, WIFSIGNALED(st) ? fmtv("the process was killed by signal %d (%s) in this state", WTERMSIG(st), strsignal(WTERMSIG(st)))
                                                : fmtv("the process exited with status %d in this state", WEXITSTATUS(st)));
          // Another worker takes over the rest of the shared counter; states left in the dead worker's chunk
          // are larger than the crash state, which already is a violation.
        }
      }
      continue;
    }
    usleep(2000);
    for (int w = 0; w < jobs; w++) if (pid[w]) {
      u64 k = S->w[w].ticks;
      if (k != last[w]) { last[w] = k; t[w] = clk::now(); }
      else if (S->w[w].cur != ~0ull && std::chrono::duration<double>(clk::now() - t[w]).count() > limit) {
        u64 cur = S->w[w].cur;
        kill(pid[w], SIGKILL); int st2; waitpid(pid[w], &st2, 0); pid[w] = 0; live--; S->lock = 0;
        record_crash(s, cur, fmtv("no termination within %.0f s in this state", limit));
      }
    }
  }
  return S->minfail == ~0ull;
}

inline int main_(int argc, char** argv) {
  std::string out, replay_suite; u64 replay_state = 0; int jobs = 8; double limit = 40;
  bool list = false; std::string only;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--out") out = argv[++i];
    else if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--limit") limit = atof(argv[++i]);
    else if (a == "--known") { std::ifstream f(argv[++i]); std::string l; while (std::getline(f, l)) if (!l.empty()) known_keys().insert(l); }
    else if (a == "--replay") { replay_suite = argv[++i]; replay_state = strtoull(argv[++i], 0, 10); }
    else if (a == "--only") only = argv[++i];
    else if (a == "--list") list = true;
  }
  S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (S == MAP_FAILED) { perror("mmap"); return 3; }
  if (list) { for (auto& s : suites()) printf("%s %llu\n", s.name.c_str(), (unsigned long long)s.n); return 0; }
  if (!replay_suite.empty()) {
    for (auto& s : suites()) if (s.name == replay_suite) {
      S->minfail = ~0ull; S->w[0].cur = ~0ull;
      Suite one = s; u64 st = replay_state;
      one.n = 1; one.body = [&](u64, Ctx& c) { s.body(st, c); };
      bool ok = explore(one, 1, limit * 4);
      printf("state: %s\n", s.describe(st).c_str());
      if (ok) { printf("REPLAY: held\n"); return 0; }
      printf("REPLAY: violated: %s\n  key: %s\n", S->rec.msg, S->rec.key);
      return 1;
    }
    fprintf(stderr, "no suite %s\n", replay_suite.c_str()); return 3;
  }
  int rc = 0;
  std::ostringstream js; js << "{\"suites\":[";
  bool first = true; std::string viol;
  for (auto& s : suites()) {
    if (!only.empty() && s.name.find(only) == std::string::npos) continue;
    auto t0 = std::chrono::steady_clock::now();
    for (auto& b : S->bits) b.store(0, std::memory_order_relaxed);
    bool ok = explore(s, jobs, limit);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    u64 distinct = 0; for (auto& b : S->bits) distinct += b.load();
    js << (first ? "" : ",") << "{\"name\":\"" << jesc(s.name) << "\",\"hw\":" << (s.hw ? "true" : "false")
       << ",\"bound\":\"" << jesc(s.bound) << "\",\"states\":" << (u64)S->executed << ",\"space\":" << s.n
       << ",\"transitions\":" << (u64)S->evals << ",\"distinct_outcomes\":" << distinct << ",\"wall_s\":" << dt
       << ",\"samples\":[";
    u64 pick[3] = {0, s.n / 2, s.n - 1};
    for (int k = 0; k < (s.n > 2 ? 3 : s.n > 0 ? 1 : 0); k++) js << (k ? "," : "") << "\"" << jesc(s.describe(pick[k])) << "\"";
    js << "]}";
    first = false;
    fprintf(stderr, "  %-34s states=%llu/%llu transitions=%llu outcomes=%llu %.2fs %s\n", s.name.c_str(), (unsigned long long)S->executed,
            (unsigned long long)s.n, (unsigned long long)S->evals, (unsigned long long)distinct, dt, ok ? "ok" : "VIOLATED");
    if (!ok) {
      u64 st = S->fail_state; if (S->minfail < st) st = S->minfail;
      std::ostringstream v;
      v << "{\"suite\":\"" << jesc(s.name) << "\",\"state\":" << st << ",\"key\":\"" << jesc(S->rec.key) << "\",\"msg\":\""
        << jesc(std::string(S->rec.msg).substr(0, 1500)) << "\",\"describe\":\"" << jesc(s.describe(st).substr(0, 1500)) << "\"}";
      viol = v.str();
      rc = 1; break;
    }
  }
  js << "],\"known_hits\":" << (u64)S->known_hits << ",\"known_seen\":[";
  for (int i = 0; i < S->nknown; i++) js << (i ? "," : "") << "\"" << jesc(S->known_seen[i]) << "\"";
  js << "]";
  if (!viol.empty()) js << ",\"violation\":" << viol;
  js << "}";
  if (!out.empty()) { std::ofstream f(out); f << js.str() << "\n"; } else printf("%s\n", js.str().c_str());
  return rc;
}

}  // namespace mc

#define MC_MAIN int main(int c, char** v) { register_suites(); return mc::main_(c, v); }
