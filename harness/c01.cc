// C01: concurrent use. Every scenario (2 or 3 threads with what each does) is executed under every schedule up to a
// preemption bound, each execution in a process of its own which starts without having run any library code.
#include <dlfcn.h>
#include <sched.h>

#include <memory>
#include <sstream>

#include "expr/utils.h"
#include "relref.h"
#include "scheduler.h"
using namespace rr;
using std::shared_ptr;

// ------------------------------------------------------------------------------------------ what threads do
enum Share { Own = 0, Copies = 1, Same = 2 };  // the tuples of the threads: unrelated, sharing string values, one for all
static const char *kShare[] = {"unrelated tuples", "tuples with shared values", "one shared tuple"};

// Built by the process of an execution before its threads start.
struct Env {
  Share share;
  std::vector<std::pair<const Row *, shared_ptr<expr::Tuple>>> made;
  shared_ptr<expr::Tuple> tuple(const Row &r) {
    if (share == Own) return std::make_shared<expr::Tuple>(real::toTuple(r));
    for (auto &m : made)
      if (ref::same(*m.first, r)) return share == Same ? m.second : std::make_shared<expr::Tuple>(*m.second);
    made.emplace_back(&r, std::make_shared<expr::Tuple>(real::toTuple(r)));
    return share == Same ? made.back().second : std::make_shared<expr::Tuple>(*made.back().second);
  }
};
using Body = std::function<void()>;
struct Task {
  std::string name;
  std::function<Body(Env &)> make;
};

static void expect(bool ok, const std::function<std::string()> &msg) {
  if (!ok) {
    sched::Quiet q;
    sched::fail(msg());
  }
}

// Decodes, binds, runs twice with other uses of the same evaluator in between.
static Task exprTask(const Prog &p, const Row &row) {
  struct D {
    Bytes code;
    Row row;
    std::string name;
    Eval want;
  };
  auto d = std::make_shared<D>();
  d->code = ref::encode(p);
  d->row = row;
  d->name = ref::show(p) + " on " + ref::show(row);
  d->want = ref::eval(p, &row);
  return {d->name, [d](Env &env) -> Body {
            auto t = env.tuple(d->row);
            return [d, t]() mutable {
              {
                expr::Runner r;
                for (int k = 0; k < 2; ++k) {
                  Result res;
                  try {
                    r.Decode(d->code.data(), d->code.size());
                    r.BindTuple(t.get());
                    for (int again = 0; again <= k; ++again) res = real::run(r);
                  } catch (const std::exception &e) {
                    res.error = true;
                    res.what = e.what();
                  }
                  sched::Quiet q;
                  Out w;
                  w.kind = d->want.kind;
                  if (w.kind == Out::Value) w.v = d->want.stack.back();
                  w.ulp = d->want.ulp * 4;
                  if (!real::agrees(res, w)) sched::fail(d->name + " gives " + real::show(res) + ", expected " + ref::show(w));
                }
              }
              t.reset();
            };
          }};
}
// Bytes which are no program.
static Task badCode(const Bytes &b) {
  auto d = std::make_shared<Bytes>(b);
  return {"decode " + ref::hex(b), [d](Env &) -> Body {
            return [d] {
              expr::Runner r;
              for (int k = 0; k < 2; ++k) {
                bool raised = false;
                try {
                  r.Decode(d->data(), d->size());
                } catch (const std::exception &) {
                  raised = true;
                }
                expect(raised, [&] { return "decoding " + ref::hex(*d) + " raises nothing"; });
              }
            };
          }};
}
// A relational runner: rows are put, the results taken, twice.
static Task relTask(const Chain &ch, const std::vector<Row> &rows) {
  struct D {
    Chain ch;
    Bytes code;
    std::vector<Row> rows;
    std::vector<std::pair<int, Row>> put;  // per row: 0 no output, 1 output, 2 raised
    std::vector<Row> got;
    Row hint;  // the types of the results
    std::string name;
  };
  auto d = std::make_shared<D>();
  d->ch = ch;
  d->code = rr::encode(ch);
  d->rows = rows;
  d->name = rr::show(ch) + " of " + showRows(rows);
  RefChain rc(ch);
  for (auto &r : rows) {
    Row out;
    int k;
    try {
      k = rc.put(r, out);
    } catch (RefError &) {
      k = 2;
    }
    d->put.push_back({k, out});
  }
  d->got = rc.drain();
  for (auto &g : d->got) {
    if (d->hint.size() < g.size()) d->hint.resize(g.size());
    for (size_t i = 0; i < g.size(); ++i) if (!g[i].isNull()) d->hint[i] = g[i];
  }
  return {d->name, [d](Env &env) -> Body {
            std::vector<shared_ptr<expr::Tuple>> ts;
            for (auto &r : d->rows) ts.push_back(env.tuple(r));
            return [d, ts]() mutable {
              {
                dingodb::rel::RelRunner r;
                r.Decode(d->code.data(), d->code.size());
                for (int round = 0; round < 2; ++round) {
                  for (size_t i = 0; i < ts.size(); ++i) {
                    const expr::Tuple *o = nullptr;
                    int k;
                    try {
                      o = r.Put(new expr::Tuple(*ts[i]));
                      k = o ? 1 : 0;
                    } catch (const std::exception &) {
                      k = 2;
                    }
                    {
                      sched::Quiet q;
                      Row out;
                      if (o) out = real::fromTuple(*o, &d->put[i].second);
                      if (k != d->put[i].first || (k == 1 && !loose(out, d->put[i].second)))
                        sched::fail(d->name + ": row " + std::to_string(i) + " gives " + (k == 0 ? "nothing" : k == 2 ? "an error" : ref::show(out)));
                    }
                    delete o;
                  }
                  std::vector<Row> got;
                  while (const expr::Tuple *o = r.Get()) {
                    {
                      sched::Quiet q;
                      got.push_back(real::fromTuple(*o, &d->hint));
                      if (got.size() > d->got.size()) break;
                    }
                    delete o;
                  }
                  sched::Quiet q;
                  std::string df = diffRows(got, d->got);
                  if (!df.empty()) sched::fail(d->name + ": " + df);
                }
              }
              ts.clear();
            };
          }};
}
// The value holder and the helper functions, on the threads' tuples.
static Task utilTask(const Row &row) {
  auto d = std::make_shared<Row>(row);
  return {"helpers on " + ref::show(row), [d](Env &env) -> Body {
            auto t = env.tuple(*d);
            return [d, t]() mutable {
              {
                size_t n = t->size();
                std::vector<int> idx;
                for (size_t i = 0; i < n; ++i) idx.push_back((int)(n - 1 - i));
                std::unique_ptr<expr::Tuple> m(expr::MapTuple(*t, idx.data(), n)), cc(expr::ConcatTuple(*t, *m));
                expr::Tuple copy(*t);
                size_t h1 = std::hash<expr::Tuple>()(*t), h2 = std::hash<expr::Tuple>()(copy);
                bool eq = copy == *t;
                std::string text = expr::HexOfBytes((const unsigned char *)"\x01\xAB\xff", 3);
                unsigned char back[3];
                expr::HexToBytes(back, text.data(), 6);
                std::ostringstream os;
                for (auto &o : copy) os << o << ",";
                copy[0] = nullptr;
                sched::Quiet q;
                if (h1 != h2 || !eq) sched::fail("a copy of " + ref::show(*d) + " differs from it");
                if (text != "01ABFF" || memcmp(back, "\x01\xAB\xff", 3)) sched::fail("hexadecimal conversion gives " + text);
                Row want = *d;
                for (size_t i = 0; i < n; ++i) want.push_back((*d)[n - 1 - i]);
                if (!ref::same(real::fromTuple(*cc, &want), want)) sched::fail("concatenation gives " + ref::show(real::fromTuple(*cc)) + ", expected " + ref::show(want));
                if (!ref::same(real::fromTuple(*t, &*d), *d)) sched::fail("the tuple became " + ref::show(real::fromTuple(*t)));
              }
              t.reset();
            };
          }};
}

// ------------------------------------------------------------------------------------------ exploration of schedules
static sched::Shared *shm(mc::Ctx &c) {
  static sched::Shared *s = nullptr;
  if (!s) {
    s = (sched::Shared *)mmap(nullptr, sizeof *s, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sched::prepare();
    // the threads of an execution take turns: on one processor this is quickest
    cpu_set_t all, one;
    int pick = c.worker, k = -1;
    if (sched_getaffinity(0, sizeof all, &all) == 0 && CPU_COUNT(&all) > 0) {
      pick %= CPU_COUNT(&all);
      CPU_ZERO(&one);
      for (int i = 0; i < CPU_SETSIZE; ++i)
        if (CPU_ISSET(i, &all) && ++k == pick) CPU_SET(i, &one);
      sched_setaffinity(0, sizeof one, &one);
    }
  }
  return s;
}
static std::string where(uintptr_t pc) {
  if (!pc) return "?";
  Dl_info d;
  std::string r = "?";
  if (dladdr((void *)pc, &d) && d.dli_fname) {
    char cmd[600];
    snprintf(cmd, sizeof cmd, "addr2line -Cfpie /proc/%d/exe %#zx 2>/dev/null", getpid(), (size_t)(pc - (uintptr_t)d.dli_fbase - 1));
    if (FILE *f = popen(cmd, "r")) {
      char b[1000];
      size_t n = fread(b, 1, sizeof b - 1, f);
      pclose(f);
      b[n] = 0;
      r = b;
      for (auto &ch : r) if (ch == '\n') ch = ' ';
    }
  }
  return r.substr(0, 600);
}

struct Scenario {
  std::vector<const Task *> tasks;
  Share share;
  bool warm;  // everything has been done once before, by one thread
  int bound;  // preemptions
};
static std::string show(const Scenario &s) {
  std::string t;
  for (auto *k : s.tasks) t += (t.empty() ? "threads {" : "} {") + k->name;
  return t + "}, " + kShare[s.share] + (s.warm ? ", after both were run once" : "");
}

static void explore(mc::Ctx &c, const Scenario &sc) {
  sched::Shared *s = shm(c);
  std::string name = show(sc);
  c.note(name);
  uint64_t id = mc::hashStr(name);
  std::vector<uint8_t> prefix;
  std::vector<uintptr_t> points;
  uint64_t n = 0;
  int restarts = 0;
  for (;;) {
    memset((void *)s, 0, offsetof(sched::Shared, prefix));
    s->nPrefix = (int)prefix.size();
    std::copy(prefix.begin(), prefix.end(), s->prefix);
    s->nPoints = (int)points.size();
    std::copy(points.begin(), points.end(), s->points);
    s->status = s->nDec = s->nSync = 0;
    s->accesses = s->syncs = s->trace = 0;
    s->pc = s->pcOther = 0;
    s->msg[0] = 0;
    pid_t pid = fork();
    if (pid < 0) c.fail("no process");
    if (pid == 0) {
      alarm(20);
      sched::begin(s);
      Env env{sc.share, {}};
      if (sc.warm) {
        Env e2{Own, {}};
        for (auto *t : sc.tasks) t->make(e2)();
      }
      std::vector<Body> bodies;
      for (auto *t : sc.tasks) bodies.push_back(t->make(env));
      env.made.clear();  // the threads have the last references
      sched::run(bodies);
      s->status = 1;
      _exit(0);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    ++n;
    c.steps(s->accesses);
    c.tick();
    std::string sched;
    if (s->status != 1) {
      for (int i = 0; i < s->nDec; ++i) sched += (char)('0' + s->dec[i].chosen);
      if (s->status == 3) c.internal("%s: %s", name.c_str(), s->msg);
      std::string m = s->status == 2 ? s->msg
                      : WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "no progress" : "crashed with signal " + std::to_string(WTERMSIG(st)))
                                        : "exited with status " + std::to_string(WEXITSTATUS(st));
      if (s->pc) m += "; at " + where(s->pc) + "; the other at " + where(s->pcOther);
      c.fail(name + ", schedule " + sched + ": " + m);
    }
    // objects which several threads synchronise on
    bool grew = false;
    for (int i = 0; i < s->nSync; ++i) {
      int m = s->syncMask[i];
      if (!(m & sched::kWritten)) continue;
      m &= ~(sched::kWritten | 1);
      if (!(m & (m - 1)) || std::find(points.begin(), points.end(), s->sync[i]) != points.end()) continue;
      points.push_back(s->sync[i]);
      grew = true;
    }
    if (grew) {
      if (++restarts > 500) c.internal("%s: synchronisation objects differ between executions", name.c_str());
      prefix.clear();
      continue;
    }
    for (int i = 0; i < s->nDec; ++i) c.state(mc::mix(id, s->stateAt[i]));
    c.outcome(mc::mix(id, s->trace));
    // next schedule within the bound
    int d = s->nDec - 1;
    for (; d >= 0; --d) {
      int used = 0;
      for (int i = 0; i < d; ++i) used += s->dec[i].preempts && s->dec[i].chosen;
      int next = s->dec[d].chosen + 1;
      if (next < s->dec[d].n && used + (s->dec[d].preempts ? 1 : 0) <= sc.bound) {
        prefix.clear();
        for (int i = 0; i < d; ++i) prefix.push_back(s->dec[i].chosen);
        prefix.push_back((uint8_t)next);
        break;
      }
    }
    if (d < 0) break;
  }
  c.exec(n - 1);
  if (c.wantSample()) c.sample(name + ": " + std::to_string(n) + " schedules, " + std::to_string(points.size()) + " shared synchronisation objects");
}

// ------------------------------------------------------------------------------------------ scenarios
static const Val kArg[8][2] = {{},
                               {Val::i32(-7), Val::i32(3)},
                               {Val::i64(-7), Val::i64(3)},
                               {Val::b(true), Val::b(false)},
                               {Val::f32(2.5f), Val::f32(-1.25f)},
                               {Val::f64(0.5), Val::f64(0.25)},
                               {},
                               {Val::str(" a long string which is kept on the heap, 123 "), Val::str("zz")}};
// Operand values such that the operator gives something (a number in text for casts).
static Row argsOf(const Op &o, int variant) {
  Row r;
  for (size_t i = 0; i < o.args.size(); ++i) r.push_back(kArg[o.args[i]][(i + variant) % 2]);
  if (o.args[0] == STR && o.ret != STR && o.args.size() == 1) r[0] = Val::str(variant ? "-12.5" : "123");
  return r;
}
static Prog call(const Op &o) {
  Prog p;
  for (size_t i = 0; i < o.args.size(); ++i) p.push_back(iVar(o.args[i], (int)i));
  p.push_back(iOp(o));
  return p;
}
static const std::vector<Task> &opTasks(int variant) {
  static std::vector<Task> v[2];
  if (v[variant].empty())
    for (auto &o : ops()) v[variant].push_back(exprTask(call(o), argsOf(o, variant)));
  return v[variant];
}
static const std::vector<Task> &otherTasks() {
  static std::vector<Task> v;
  if (!v.empty()) return v;
  auto S = [](const char *s) { return Val::str(s); };
  const Row mix = {Val::i32(4), S("a string value long enough for the heap"), Val(), S("b"), Val::f64(1.5), Val::b(true)};
  // programs
  v.push_back(exprTask(apply2(apply2(var(STR, 1), lit(S("-constant text beyond the small buffer-"), STR), "CONCAT"), var(STR, 3), "CONCAT"), mix));
  v.push_back(exprTask(apply2(apply1(var(STR, 1), "UPPER"), apply1(apply1(var(STR, 1), "LOWER"), "UPPER"), "EQ<str>"), mix));
  v.push_back(exprTask({iVar(STR, 1)}, mix));
  v.push_back(exprTask({iVar(I32, 2)}, mix));
  v.push_back(exprTask(apply1(lit(Val::f64(1e300), F64), "CAST_C<i32,f64>"), mix));  // raises
  v.push_back(exprTask(apply1(var(STR, 1), "CAST<i32,str>"), mix));
  v.push_back(badCode({0x83}));
  v.push_back(badCode({0x11, 0x80}));
  v.push_back(badCode({0x17, 0x03, 'a', 'b', 'c', 0x37, 0x01, 0xEE}));
  v.push_back(utilTask(mix));
  // relational
  AggSpec all{AggSpec::CountAll, NUL, 0};
  const std::vector<Row> rows = {{Val::i64(1), S("first key, long enough for the heap"), Val::f64(1)},
                                 {Val(), S("second key, long enough for the heap"), Val::f64(-2)},
                                 {Val::i64(3), S("first key, long enough for the heap"), Val::f64(1e300)}};
  v.push_back(relTask({filter(apply2(var(I64, 0), lit(Val::i64(1), I64), "GT<i64>"))}, rows));
  v.push_back(relTask({project({var(STR, 1), var(I64, 0), apply2(var(STR, 1), var(STR, 1), "CONCAT")})}, rows));
  v.push_back(relTask({project({apply1(var(F64, 2), "CAST_C<i32,f64>"), var(STR, 1)})}, rows));  // a row raises
  v.push_back(relTask({grouped({1}, {all, {AggSpec::Sum, I64, 0}, {AggSpec::Max, F64, 2}})}, rows));
  v.push_back(relTask({ungrouped({all, {AggSpec::Min, STR, 1}, {AggSpec::Max, STR, 1}, {AggSpec::Count, I64, 0}})}, rows));
  v.push_back(relTask({filter(apply1(var(I64, 0), "IS_NULL<i64>")), project({var(STR, 1), var(F64, 2)}), grouped({0}, {{AggSpec::Sum, F64, 1}})}, rows));
  v.push_back(relTask({grouped({1, 0}, {}), project({apply1(var(STR, 0), "UPPER"), var(I64, 1)}), ungrouped({{AggSpec::Min, STR, 0}, all})}, rows));
  for (auto &a : allAggs(0)) {
    T t = a.t == NUL ? I64 : a.t;
    v.push_back(relTask({ungrouped({a})}, {{kArg[t][0]}, {Val()}, {kArg[t][1]}}));
  }
  return v;
}

int main(int argc, char **argv) {
  return mc::mcMain(argc, argv, [] {
    bool th = mc::thorough();
    size_t nOps = ops().size(), nOther = otherTasks().size();
    opTasks(0);
    opTasks(1);
    mc::phase("operator-with-itself", "every operator in two threads with an evaluator each, on unrelated tuples, tuples sharing string values, and one shared tuple; from a cold start and after a warm-up: all schedules with at most 2 preemptions (quick: 1 except on shared values from a cold start)", 2, [=](mc::Ctx &c) {
      size_t o = c.choose((int)nOps);
      Share sh = (Share)c.choose(3);
      bool warm = c.choose(2);
      int v = sh == Own ? 1 : 0;  // different operands where nothing is shared
      explore(c, {{&opTasks(0)[o], &opTasks(v)[o]}, sh, warm, th || (sh == Copies && !warm) ? 2 : 1});
    });
    mc::phase("operator-pairs", "every pair of different operators in two threads from a cold start: all schedules with at most 1 (thorough: 2) preemptions", 2, [=](mc::Ctx &c) {
      size_t a = c.choose((int)nOps), b = c.choose((int)nOps);
      if (b <= a) return;
      explore(c, {{&opTasks(0)[a], &opTasks(1)[b]}, th ? Copies : Own, false, th ? 2 : 1});
    });
    mc::phase("programs-runners-helpers", "every pair (also with itself) of 10 programs and helpers (constants, raising casts, undecodable code, hashing, printing, hexadecimal, tuple functions) and relational runners of every kind and aggregate, in two threads, on unrelated and shared values, cold (thorough: also warm): all schedules with at most 1 preemption", 3, [=](mc::Ctx &c) {
      size_t a = c.choose((int)nOther), b = c.choose((int)nOther);
      Share sh = (Share)c.choose(3);
      if (b < a) return;
      bool warm = th ? c.choose(2) : false;
      explore(c, {{&otherTasks()[a], &otherTasks()[b]}, sh, warm, 1});
    });
    mc::phase("shared-strings-deep", "programs and helpers (thorough: and relational runners) in two threads sharing values: all schedules with at most 2 preemptions (thorough: 3 for programs and helpers)", 2, [=](mc::Ctx &c) {
      size_t a = c.choose(th ? 17 : 10);
      Share sh = (Share)(1 + c.choose(2));
      explore(c, {{&otherTasks()[a], &otherTasks()[a]}, sh, false, th && a < 10 ? 3 : 2});
    });
    mc::phase("three-threads", "every operator, program, helper and runner in three threads sharing values: all schedules with at most 1 preemption (thorough: 2 for operators on copies of the values)", 1, [=](mc::Ctx &c) {
      size_t a = c.choose((int)(nOps + nOther));
      const Task *t = a < nOps ? &opTasks(0)[a] : &otherTasks()[a - nOps];
      bool same = th && c.choose(2);
      explore(c, {{t, t, t}, same ? Same : Copies, false, th && a < nOps && !same ? 2 : 1});
    });
  });
}
