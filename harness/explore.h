// Stateless exhaustive explorer. A harness body takes every decision through Ctx::choose(n); the explorer
// re-executes the body for every sequence of choices (depth first), split over worker processes. A body compares
// the implementation with a reference on the way and calls Ctx::fail() on the first difference. Crashes, sanitizer
// reports, abnormal exits and hangs of a worker are turned into violations by the parent, which replays every
// candidate in a fresh process before reporting it.
#pragma once
#include <errno.h>
#include <locale.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <functional>
#include <map>
#include <new>
#include <set>
#include <string>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
extern "C" __attribute__((weak)) const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:max_allocation_size_mb=2048:"
         "detect_stack_use_after_return=0:handle_segv=1:handle_sigfpe=1:handle_abort=0:print_summary=1:"
         "quarantine_size_mb=16:symbolize=0";
}
#endif

namespace mc {

// ---------------------------------------------------------------------------------------------- hashing
inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 33;
  return h;
}
inline uint64_t hashBytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char *b = (const unsigned char *)p;
  for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ULL;
  return mix(h, n);
}
inline uint64_t hashStr(const std::string &s, uint64_t h = 1469598103934665603ULL) { return hashBytes(s.data(), s.size(), h); }

// Open addressing set of 64-bit hashes, with a cap (when reached, counts are lower bounds).
class HashSet {
 public:
  bool insert(uint64_t h) {
    if (h == 0) h = 1;
    if (m_full) return false;
    if ((m_size + 1) * 2 > m_cap) {
      if (m_size >= kMax) {
        m_full = true;
        return false;
      }
      grow();
    }
    return put(h);
  }
  size_t size() const { return m_size; }
  bool full() const { return m_full; }
  template <class F>
  void each(F f) const {
    for (size_t i = 0; i < m_cap; ++i)
      if (m_tab[i]) f(m_tab[i]);
  }

 private:
  static constexpr size_t kMax = 6u << 20;
  uint64_t *m_tab = nullptr;
  size_t m_cap = 0, m_size = 0;
  bool m_full = false;
  bool put(uint64_t h) {
    size_t i = (h * 0x9e3779b97f4a7c15ULL) & (m_cap - 1);
    while (m_tab[i]) {
      if (m_tab[i] == h) return false;
      i = (i + 1) & (m_cap - 1);
    }
    m_tab[i] = h;
    ++m_size;
    return true;
  }
  void grow() {
    uint64_t *old = m_tab;
    size_t oc = m_cap;
    m_cap = m_cap ? m_cap * 2 : 4096;
    m_tab = (uint64_t *)calloc(m_cap, 8);
    m_size = 0;
    for (size_t i = 0; i < oc; ++i)
      if (old[i]) put(old[i]);
    free(old);
  }
};

// ---------------------------------------------------------------------------------------------- shared memory
constexpr int kMaxWorkers = 64;
constexpr int kMaxChoices = 512;
constexpr int kMsg = 3000;

struct Slot {
  volatile uint64_t progress;  // bumped at least once per execution
  volatile uint64_t execs, transitions, outcomes;
  volatile int phase;
  volatile int nchoices;
  volatile int choices[kMaxChoices];
  volatile int status;  // 0 running, 1 done, 2 violation, 3 internal error
  char msg[kMsg];
  char note[kMsg];  // what the body is doing right now (printed when it crashes)
};

struct Skip {};
struct Violation {};
struct Internal {};

class Ctx {
 public:
  Slot *slot = nullptr;
  std::vector<int> choices, arity, step;
  size_t pos = 0;
  int worker = 0, workers = 1;
  size_t shardDepth = 1;
  uint64_t linear = 0;
  bool replay = false;
  HashSet *states = nullptr, *outcomes = nullptr;
  std::vector<std::string> *samples = nullptr;
  size_t sampleCap = 0;

  // The only source of nondeterminism: returns each value of [0, n) in some execution.
  int choose(int n) {
    if (n <= 0) internal("choose(%d)", n);
    if (pos < choices.size()) {
      if (!replay && arity[pos] != n) internal("nondeterministic body: arity %d became %d at choice %zu", arity[pos], n, pos);
      if (choices[pos] >= n) internal("replay out of range: choice %zu is %d of %d", pos, choices[pos], n);
      if (pos < shardDepth) linear = linear * n + choices[pos];
      return choices[pos++];
    }
    if (replay) internal("replay too short at choice %zu", pos);
    int v = 0, st = 1;
    if (pos + 1 == shardDepth) {
      st = workers;
      uint64_t base = (linear * (uint64_t)n) % workers;
      v = (int)((worker + workers - base) % workers);
      if (v >= n) throw Skip();
    }
    if (pos < shardDepth) linear = linear * n + v;
    choices.push_back(v);
    arity.push_back(n);
    step.push_back(st);
    if (pos < (size_t)kMaxChoices) {
      slot->choices[pos] = v;
      slot->nchoices = (int)pos + 1;
    }
    ++pos;
    return v;
  }
  template <class C>
  const typename C::value_type &pick(const C &c) {
    return c[choose((int)c.size())];
  }
  // n operator applications / API calls were executed on the real code and compared
  void steps(uint64_t n = 1) { slot->transitions += n; }
  void tick() { ++slot->progress; }
  void exec(uint64_t n = 1) {
    slot->execs += n;
    ++slot->progress;
  }
  void state(uint64_t h) { states->insert(h); }
  void outcome(uint64_t h) { outcomes->insert(h); }
  void sample(const std::string &s) {
    if (samples && samples->size() < sampleCap) samples->push_back(s);
  }
  bool wantSample() const { return samples && samples->size() < sampleCap; }
  // Describes what runs next, in case it crashes.
  void note(const std::string &s) {
    size_t n = std::min(s.size(), (size_t)kMsg - 1);
    memcpy(slot->note, s.data(), n);
    slot->note[n] = 0;
  }
  [[noreturn]] void fail(const std::string &m) {
    size_t n = std::min(m.size(), (size_t)kMsg - 1);
    memcpy(slot->msg, m.data(), n);
    slot->msg[n] = 0;
    throw Violation();
  }
  [[noreturn]] void internal(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(slot->msg, kMsg, fmt, ap);
    va_end(ap);
    throw Internal();
  }
};

struct Phase {
  std::string name;
  std::string rule;  // what is enumerated
  size_t shardDepth;
  std::function<void(Ctx &)> body;
};

inline std::vector<Phase> &phases() {
  static std::vector<Phase> p;
  return p;
}
inline bool &thoroughFlag() {
  static bool t = false;
  return t;
}
inline bool thorough() { return thoroughFlag(); }

// Sizes at which representations change: the powers of two and of ten in [from, to], their neighbours, and `more`.
inline std::vector<int> sizes(int from, int to, std::initializer_list<int> more = {}) {
  std::set<int> s(more);
  auto add = [&](long v) { for (long d = -1; d <= 1; ++d) if (v + d >= from && v + d <= to) s.insert((int)(v + d)); };
  for (long v = 1; v <= (long)to + 1; v *= 2) add(v);
  for (long v = 100; v <= (long)to + 1; v *= 10) add(v);
  return std::vector<int>(s.begin(), s.end());
}
// Places in something of n elements: all if it is small, else the first, the last and those next to powers of two.
inline std::vector<int> places(int n, int all = 70) {
  std::set<int> s;
  if (n <= all) for (int i = 0; i < n; ++i) s.insert(i);
  else {
    for (int v : sizes(0, n - 1, {0, 1, n / 3, n / 2, n - 9, n - 8, n - 2, n - 1})) s.insert(v);
  }
  return std::vector<int>(s.begin(), s.end());
}
inline void phase(const std::string &name, const std::string &rule, size_t shardDepth, std::function<void(Ctx &)> body) {
  phases().push_back({name, rule, shardDepth, std::move(body)});
}

// The process-wide floating-point control (rounding, masks, flush to zero) and the decimal point, which the library has
// no business changing: what other evaluations, and the reference itself, compute depends on them.
inline const char *environmentChanged() {
#if defined(__x86_64__)
  unsigned mxcsr;
  unsigned short cw;
  __asm__ volatile("stmxcsr %0" : "=m"(mxcsr));
  __asm__ volatile("fnstcw %0" : "=m"(cw));
  if ((mxcsr & 0xFFC0) != 0x1F80 || cw != 0x037F) return "the floating-point mode of the process is left changed";
#endif
  if (localeconv()->decimal_point[0] != '.') return "the locale of the process is left changed";
  return nullptr;
}

// One execution; returns slot status. Exceptions escaping the body are violations (bodies catch what is allowed).
inline int runOnce(Ctx &c, const Phase &p) {
  c.pos = 0;
  c.linear = 0;
  c.slot->nchoices = (int)c.choices.size();
  for (size_t i = 0; i < c.choices.size() && i < (size_t)kMaxChoices; ++i) c.slot->choices[i] = c.choices[i];
  try {
    p.body(c);
  } catch (Skip &) {
    return -1;
  } catch (Violation &) {
    return 2;
  } catch (Internal &) {
    return 3;
  } catch (std::exception &e) {
    snprintf(c.slot->msg, kMsg, "unexpected exception: %.500s (while: %.2000s)", e.what(), c.slot->note);
    return 2;
  } catch (...) {
    snprintf(c.slot->msg, kMsg, "unexpected non-standard exception (while: %.2000s)", c.slot->note);
    return 2;
  }
  if (const char *what = environmentChanged()) {
    snprintf(c.slot->msg, kMsg, "%s (while: %.2000s)", what, c.slot->note);
    return 2;
  }
  if (c.pos < c.shardDepth) {
    snprintf(c.slot->msg, kMsg, "body made fewer choices (%zu) than the shard depth", c.pos);
    return 3;
  }
  ++c.slot->execs;
  ++c.slot->progress;
  return 1;
}

// Explores everything this worker owns of one phase. Returns 1 or 2/3.
inline int explorePhase(Ctx &c, int index) {
  const Phase &p = phases()[index];
  c.slot->phase = index;
  c.choices.clear();
  c.arity.clear();
  c.step.clear();
  c.shardDepth = p.shardDepth;
  for (;;) {
    int r = runOnce(c, p);
    if (r == 2 || r == 3) return r;
    c.choices.resize(c.pos);
    c.arity.resize(c.pos);
    c.step.resize(c.pos);
    // next sequence: bump the last choice that has an untried value
    while (!c.choices.empty()) {
      int &v = c.choices.back();
      if (v + c.step.back() < c.arity.back()) {
        v += c.step.back();
        break;
      }
      c.choices.pop_back();
      c.arity.pop_back();
      c.step.pop_back();
    }
    if (c.choices.empty()) return 1;
  }
}

inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

inline std::string jsonStr(const std::string &s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (ch == '\n') {
      o += "\\n";
    } else if (ch < 0x20 || ch >= 0x7f) {
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else {
      o += ch;
    }
  }
  return o + "\"";
}

struct Candidate {
  int phase;
  std::vector<int> choices;
  std::string msg;
  int worker, workers;
  bool hang = false;
};

inline void silence(const char *logfile) {
  FILE *f = freopen(logfile, "w", stderr);
  (void)f;
}

inline std::string tail(const std::string &file, size_t max = 1500) {
  FILE *f = fopen(file.c_str(), "r");
  if (!f) return "";
  std::string s;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0 && s.size() < 100000) s.append(b, n);
  fclose(f);
  if (s.size() > max) s.resize(max);
  return s;
}

// Runs f in a child; returns exit status string ("ok", "violation: ..", "crash: ..", "hang") and message.
struct ChildResult {
  int kind;  // 1 ok, 2 violation, 3 internal, 4 crash, 5 hang
  std::string msg;
};

inline ChildResult runChild(Slot *slot, const std::string &log, double limit, const std::function<int()> &f) {
  memset((void *)slot, 0, sizeof *slot);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    silence(log.c_str());
    int r = f();
    slot->status = r;
    fflush(stdout);
    _exit(0);
  }
  double t0 = now();
  uint64_t last = 0;
  int st;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (slot->progress != last) {
      last = slot->progress;
      t0 = now();
    }
    if (now() - t0 > limit) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      return {5, std::string("no progress for the time limit; while: ") + slot->note};
    }
    usleep(2000);
  }
  if (slot->status == 1) return {1, ""};
  if (slot->status == 2) return {2, slot->msg};
  if (slot->status == 3) return {3, slot->msg};
  char b[200];
  if (WIFSIGNALED(st))
    snprintf(b, sizeof b, "crashed with signal %d", WTERMSIG(st));
  else
    snprintf(b, sizeof b, "exited with status %d (66: memory error)", WEXITSTATUS(st));
  return {4, std::string(b) + "; while: " + slot->note + "\n" + tail(log)};
}

inline int mcMain(int argc, char **argv, const std::function<void()> &setup) {
  // usage: prog --tier quick|thorough --workers N --out stats.json --tmp DIR [--replay phase c0,c1,..] [--only phase]
  std::string tier = "quick", out, tmp = "/tmp", only, rphase, rchoices;
  int W = 8;
  bool replay = false;
  double hangLimit = 30;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--tier") tier = argv[++i];
    else if (a == "--workers") W = atoi(argv[++i]);
    else if (a == "--out") out = argv[++i];
    else if (a == "--tmp") tmp = argv[++i];
    else if (a == "--only") only = argv[++i];
    else if (a == "--replay") {
      replay = true;
      rphase = argv[++i];
      rchoices = argv[++i];
    }
  }
  thoroughFlag() = tier == "thorough";
  setup();
  rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  Slot *slots = (Slot *)mmap(nullptr, sizeof(Slot) * (kMaxWorkers + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto runReplay = [&](const Candidate &cand, const std::string &log, double limit) {
    return runChild(&slots[kMaxWorkers], log, limit, [&]() {
      Ctx c;
      HashSet hs, ho;
      std::vector<std::string> sm;
      c.slot = &slots[kMaxWorkers];
      c.states = &hs;
      c.outcomes = &ho;
      c.samples = &sm;
      c.replay = true;
      c.shardDepth = 0;
      c.choices = cand.choices;
      c.arity.assign(cand.choices.size(), 0);
      return runOnce(c, phases()[cand.phase]);
    });
  };
  auto runShard = [&](const Candidate &cand, const std::string &log, double limit) {
    return runChild(&slots[kMaxWorkers], log, limit, [&]() {
      Ctx c;
      HashSet hs, ho;
      c.slot = &slots[kMaxWorkers];
      c.states = &hs;
      c.outcomes = &ho;
      c.worker = cand.worker;
      c.workers = cand.workers;
      for (int ph = 0; ph <= cand.phase; ++ph) {
        if (!only.empty() && phases()[ph].name != only) continue;
        int r = explorePhase(c, ph);
        if (r != 1) return r;
      }
      return 1;
    });
  };
  if (replay) {
    Candidate cand;
    cand.phase = -1;
    for (size_t i = 0; i < phases().size(); ++i)
      if (phases()[i].name == rphase) cand.phase = (int)i;
    if (cand.phase < 0) {
      fprintf(stderr, "no phase %s\n", rphase.c_str());
      return 2;
    }
    std::string cur;
    for (char ch : rchoices + ",") {
      if (ch == ',') {
        if (!cur.empty()) cand.choices.push_back(atoi(cur.c_str()));
        cur.clear();
      } else {
        cur += ch;
      }
    }
    ChildResult r = runReplay(cand, tmp + "/replay.log", 120);
    printf("replay of phase %s: %s\n%s\n", rphase.c_str(),
           r.kind == 1 ? "no violation" : r.kind == 3 ? "internal error" : "VIOLATION reproduced", r.msg.c_str());
    return r.kind == 1 ? 0 : r.kind == 3 ? 2 : 1;
  }

  double t0 = now();
  std::vector<Candidate> cands;
  std::string error;
  std::vector<pid_t> pids(W);
  fflush(stdout);
  for (int w = 0; w < W; ++w) {
    pid_t pid = fork();
    if (pid == 0) {
      silence((tmp + "/w" + std::to_string(w) + ".log").c_str());
      HashSet hs, ho;
      std::vector<std::string> sm;
      Ctx c;
      c.slot = &slots[w];
      c.worker = w;
      c.workers = W;
      c.states = &hs;
      c.outcomes = &ho;
      c.samples = &sm;
      int r = 1;
      FILE *pf = fopen((tmp + "/w" + std::to_string(w) + ".phases").c_str(), "w");
      for (size_t ph = 0; ph < phases().size() && r == 1; ++ph) {
        if (!only.empty() && phases()[ph].name != only) continue;
        uint64_t e0 = c.slot->execs, s0 = c.slot->transitions;
        double tp = now();
        if (w == 0) c.sampleCap = sm.size() + 2;
        r = explorePhase(c, (int)ph);
        fprintf(pf, "%zu %llu %llu %.3f\n", ph, (unsigned long long)(c.slot->execs - e0),
                (unsigned long long)(c.slot->transitions - s0), now() - tp);
      }
      fclose(pf);
      auto dump = [&](const char *ext, HashSet &h) {
        FILE *f = fopen((tmp + "/w" + std::to_string(w) + ext).c_str(), "wb");
        uint64_t flag = h.full();
        fwrite(&flag, 8, 1, f);
        h.each([&](uint64_t v) { fwrite(&v, 8, 1, f); });
        fclose(f);
      };
      dump(".states", hs);
      dump(".outcomes", ho);
      FILE *f = fopen((tmp + "/w" + std::to_string(w) + ".samples").c_str(), "w");
      for (auto &s : sm) fprintf(f, "%s\n", jsonStr(s).c_str());
      fclose(f);
      c.slot->status = r;
      _exit(0);
    }
    pids[w] = pid;
  }
  std::vector<uint64_t> last(W, 0);
  std::vector<double> lastT(W, now());
  int alive = W;
  bool stop = false;
  while (alive > 0) {
    usleep(10000);
    for (int w = 0; w < W; ++w) {
      if (pids[w] < 0) continue;
      int st;
      pid_t r = waitpid(pids[w], &st, WNOHANG);
      Slot &s = slots[w];
      auto cand = [&](const std::string &m, bool hang) {
        Candidate c;
        c.phase = s.phase;
        for (int i = 0; i < s.nchoices && i < kMaxChoices; ++i) c.choices.push_back((int)s.choices[i]);
        c.msg = m;
        c.worker = w;
        c.workers = W;
        c.hang = hang;
        cands.push_back(c);
        stop = true;
      };
      if (r == pids[w]) {
        pids[w] = -1;
        --alive;
        if (s.status == 2) cand(s.msg, false);
        else if (s.status == 3) {
          error = std::string("internal: phase ") + phases()[s.phase].name + ": " + s.msg;
          stop = true;
        } else if (s.status != 1 && !stop) {
          char b[200];
          if (WIFSIGNALED(st)) snprintf(b, sizeof b, "crashed with signal %d", WTERMSIG(st));
          else snprintf(b, sizeof b, "exited with status %d (66: memory error)", WEXITSTATUS(st));
          cand(std::string(b) + "; while: " + s.note + "\n" + tail(tmp + "/w" + std::to_string(w) + ".log"), false);
        }
        continue;
      }
      if (s.progress != last[w]) {
        last[w] = s.progress;
        lastT[w] = now();
      } else if (now() - lastT[w] > hangLimit && !stop) {
        cand(std::string("no progress (hang); while: ") + s.note, true);
        kill(pids[w], SIGKILL);
      }
    }
    if (stop) {
      usleep(300000);  // let the others finish reporting, then end them
      for (int w = 0; w < W; ++w) {
        if (pids[w] < 0) continue;
        int st;
        if (waitpid(pids[w], &st, WNOHANG) == 0) {
          kill(pids[w], SIGKILL);
          waitpid(pids[w], &st, 0);
        } else if (slots[w].status == 2) {
          Candidate c;
          c.phase = slots[w].phase;
          for (int i = 0; i < slots[w].nchoices && i < kMaxChoices; ++i) c.choices.push_back((int)slots[w].choices[i]);
          c.msg = slots[w].msg;
          c.worker = w;
          c.workers = W;
          cands.push_back(c);
        }
        pids[w] = -1;
        --alive;
      }
    }
  }

  // Confirm candidates: simplest first, each alone in a fresh process, twice; else the worker's whole exploration.
  std::sort(cands.begin(), cands.end(), [](const Candidate &a, const Candidate &b) {
    return std::make_pair(a.phase, a.choices) < std::make_pair(b.phase, b.choices);
  });
  const Candidate *confirmed = nullptr;
  std::string confirmedMsg, how;
  for (auto &c : cands) {
    ChildResult r1 = runReplay(c, tmp + "/r1.log", c.hang ? 60 : 45);
    ChildResult r2 = runReplay(c, tmp + "/r2.log", c.hang ? 60 : 45);
    if (r1.kind >= 2 && r1.kind != 3 && r2.kind == r1.kind) {
      confirmed = &c;
      confirmedMsg = r1.msg;
      how = "choices";
      break;
    }
  }
  if (!confirmed) {
    for (auto &c : cands) {
      ChildResult r1 = runShard(c, tmp + "/r3.log", 60);
      if (r1.kind >= 2 && r1.kind != 3) {
        confirmed = &c;
        confirmedMsg = r1.msg + " (only after the preceding executions of worker " + std::to_string(c.worker) + ")";
        how = "shard";
        break;
      }
    }
  }
  if (!confirmed && !cands.empty()) {
    error = "candidate violation did not replay: " + cands[0].msg;
  }

  // Merge the measurements.
  uint64_t execs = 0, trans = 0, nStates = 0, nOut = 0;
  bool capped = false;
  for (int w = 0; w < W; ++w) {
    execs += slots[w].execs;
    trans += slots[w].transitions;
  }
  auto merge = [&](const char *ext) {
    std::vector<uint64_t> all;
    for (int w = 0; w < W; ++w) {
      FILE *f = fopen((tmp + "/w" + std::to_string(w) + ext).c_str(), "rb");
      if (!f) continue;
      uint64_t flag;
      if (fread(&flag, 8, 1, f) == 1 && flag) capped = true;
      std::vector<uint64_t> buf(1 << 16);
      size_t n;
      while ((n = fread(buf.data(), 8, buf.size(), f)) > 0) all.insert(all.end(), buf.begin(), buf.begin() + n);
      fclose(f);
    }
    std::sort(all.begin(), all.end());
    return (uint64_t)(std::unique(all.begin(), all.end()) - all.begin());
  };
  nStates = merge(".states");
  nOut = merge(".outcomes");
  std::map<int, std::pair<uint64_t, uint64_t>> per;
  std::map<int, double> perT;
  for (int w = 0; w < W; ++w) {
    FILE *f = fopen((tmp + "/w" + std::to_string(w) + ".phases").c_str(), "r");
    if (!f) continue;
    int ph;
    unsigned long long a, b;
    double t;
    while (fscanf(f, "%d %llu %llu %lf", &ph, &a, &b, &t) == 4) {
      per[ph].first += a;
      per[ph].second += b;
      perT[ph] = std::max(perT[ph], t);
    }
    fclose(f);
  }
  std::string samples;
  {
    FILE *f = fopen((tmp + "/w0.samples").c_str(), "r");
    char line[8192];
    while (f && fgets(line, sizeof line, f)) {
      std::string s = line;
      while (!s.empty() && s.back() == '\n') s.pop_back();
      if (!samples.empty()) samples += ",";
      samples += s;
    }
    if (f) fclose(f);
  }
  FILE *f = fopen(out.c_str(), "w");
  if (!f) {
    fprintf(stderr, "cannot write %s\n", out.c_str());
    return 2;
  }
  fprintf(f, "{\"execs\":%llu,\"transitions\":%llu,\"states\":%llu,\"states_capped\":%s,\"outcomes\":%llu,\"wall_s\":%.3f,\n",
          (unsigned long long)execs, (unsigned long long)trans, (unsigned long long)nStates, capped ? "true" : "false",
          (unsigned long long)nOut, now() - t0);
  fprintf(f, "\"phases\":[");
  bool first = true;
  for (auto &e : per) {
    fprintf(f, "%s{\"name\":%s,\"enumerates\":%s,\"executions\":%llu,\"transitions\":%llu,\"slowest_worker_s\":%.2f}", first ? "" : ",\n",
            jsonStr(phases()[e.first].name).c_str(), jsonStr(phases()[e.first].rule).c_str(), (unsigned long long)e.second.first,
            (unsigned long long)e.second.second, perT[e.first]);
    first = false;
  }
  fprintf(f, "],\n\"samples\":[%s],\n", samples.c_str());
  if (confirmed) {
    std::string cs;
    for (size_t i = 0; i < confirmed->choices.size(); ++i) cs += (i ? "," : "") + std::to_string(confirmed->choices[i]);
    fprintf(f, "\"violation\":{\"phase\":%s,\"choices\":\"%s\",\"how\":\"%s\",\"worker\":%d,\"workers\":%d,\"message\":%s},\n",
            jsonStr(phases()[confirmed->phase].name).c_str(), cs.c_str(), how.c_str(), confirmed->worker, confirmed->workers,
            jsonStr(confirmedMsg).c_str());
  }
  fprintf(f, "\"error\":%s}\n", error.empty() ? "null" : jsonStr(error).c_str());
  fclose(f);
  if (confirmed) return 1;
  return error.empty() ? 0 : 2;
}

}  // namespace mc
