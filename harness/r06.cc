// R06: ownership of rows and memory of relational runners.
#include "alloc.h"
#include "relref.h"
using namespace rr;

static const AggSpec kAll{AggSpec::CountAll, NUL, 0};
// Rows: (i64, f64, str). The second column makes CAST_C<i32,f64> raise if it is too large.
static Row row(int64_t a, double b, const char *s) { return {Val::i64(a), Val::f64(b), Val::str(s)}; }
static const std::string kLong(40, 'L');
static std::vector<Row> kRows;
static std::vector<Chain> kChains;

static void init() {
  kRows = {row(1, 2, "short"), row(2, 1e300, kLong.c_str()), row(3, -1, "x"), {Val(), Val::f64(7), Val()}, row(1, 5, kLong.c_str())};
  Prog chk = apply1(var(F64, 1), "CAST_C<i32,f64>");
  Prog chkSum = apply1(var(F64, 1), "CAST_C<i64,f64>");
  auto pos = filter(apply2(chk, lit(Val::i32(0), I32), "GT<i32>"));
  auto odd = filter(apply2(var(I64, 0), lit(Val::i64(1), I64), "EQ<i64>"));
  auto same = project({var(I64, 0), var(F64, 1), var(STR, 2)});
  auto risky = project({var(STR, 2), chk, apply2(var(STR, 2), lit(Val::str(kLong), STR), "CONCAT")});
  auto g = grouped({2}, {{AggSpec::Sum, F64, 1}, kAll, {AggSpec::Max, STR, 2}});
  auto g1 = grouped({0}, {{AggSpec::Sum, F64, 1}, {AggSpec::Min, STR, 2}});
  auto u = ungrouped({kAll, {AggSpec::Sum, F64, 1}, {AggSpec::Min, STR, 2}});
  auto after = project({chkSum, var(STR, 2)});
  kChains = {{pos}, {odd}, {risky}, {g}, {u}, {same, pos}, {g1, after}, {u, after}, {same, g1, u}, {odd, g, filter(lit(Val(), BOOL))}, {pos, same, g1}, {u, project({})}, {g1, u},
             // no key columns; results equal to the row they are made of; no columns at all
             {grouped({}, {kAll, {AggSpec::Min, STR, 2}})}, {same, same}, {project({var(I64, 0)}), project({var(I64, 0)})}, {project({var(STR, 2)}), filter(lit(Val::b(true), BOOL)), project({var(STR, 2 - 2)}), grouped({0}, {})},
             {project({}), project({}), ungrouped({kAll})}, {grouped({2, 2}, {}), project({var(STR, 0), var(STR, 1)})}, {ungrouped({})}};
}

// Everything the caller does around one runner, with every block acquired inside the library or as a row counted.
struct World {
  mc::Ctx &c;
  bool keep;  // outputs are kept to the end, and compared again then
  dingodb::rel::RelRunner *r = nullptr;
  std::vector<std::pair<const expr::Tuple *, Row>> kept;
  std::string h;
  World(mc::Ctx &ctx, bool k) : c(ctx), keep(k) {
    al::Window w;
    r = new dingodb::rel::RelRunner();
  }
  bool decode(const Bytes &b) {
    h += " decode[" + hex(b).substr(0, 120) + "]";
    c.note("after" + h);
    Code code(b);
    try {
      al::Window w;
      r->Decode(code.data(), code.size());
      c.steps();
      return true;
    } catch (const std::exception &e) {
      c.steps();
      return false;
    }
  }
  void out(const expr::Tuple *t) {
    if (!t) return;
    if (keep) {
      kept.push_back({t, real::fromTuple(*t)});
    } else {
      real::fromTuple(*t);
      delete t;
    }
  }
  void put(const Row &row, bool quiet = false) {
    if (!quiet) { h += " put" + ref::show(row); c.note("after" + h); }
    const expr::Tuple *t = nullptr;
    try {
      al::Window w;
      t = r->Put(new expr::Tuple(real::toTuple(row)));
    } catch (const std::exception &) {
    }
    c.steps();
    out(t);
  }
  bool get() {
    h += " get";
    c.note("after" + h);
    const expr::Tuple *t = nullptr;
    bool raised = false;
    try {
      al::Window w;
      t = r->Get();
    } catch (const std::exception &) {
      raised = true;
    }
    c.steps();
    bool more = t || raised;
    out(t);
    return more;
  }
  void destroy() {
    h += " destroy";
    c.note("after" + h);
    delete r;
    r = nullptr;
    for (auto &k : kept) {
      Row now = real::fromTuple(*k.first, &k.second);
      if (!same(now, k.second)) c.fail("after" + h + ": a row handed out changed from " + ref::show(k.second) + " to " + ref::show(now));
      delete k.first;
    }
    kept.clear();
  }
  ~World() {
    for (auto &k : kept) delete k.first;
    delete r;
  }
};

// Runs a history three times: what it leaves behind must not grow each time (a cache filled once would be fine).
static void balanced(mc::Ctx &c, const std::function<std::string()> &history) {
  int64_t left[4];
  left[0] = al::g_blocks;
  std::string h;
  for (int i = 1; i <= 3; ++i) {
    h = history();
    left[i] = al::g_blocks;
    if (al::g_broken) {
      std::string b = al::g_broken;
      al::g_broken = nullptr;
      c.fail("after" + h + ": " + b);
    }
    if (left[i] <= left[i - 1]) {
      if (left[i] < 0) c.fail("after" + h + ": more blocks were released than acquired");
      return;
    }
  }
  c.fail("after" + h + ": " + std::to_string(left[3] - left[2]) + " blocks are never released (every repetition leaves that many more)");
}

int main(int argc, char **argv) {
  return mc::mcMain(argc, argv, [] {
    init();
    bool th = mc::thorough();
    static const Bytes bad = {0x71, 0x17, 0x03, 'a', 'b', 'c', 0xFF};
    mc::phase("histories", "20 chains (filters, projections, aggregations, raising at each stage) x all histories of up to 5 (thorough: 6) of {put a row that passes or is cached, one that raises, one that is dropped, take a result, decode another chain, fail to decode}, outputs released at once or kept; then destroyed", 3, [=](mc::Ctx &c) {
      const Chain &ch = c.pick(kChains);
      bool keep = c.choose(2);
      int n = c.choose(th ? 7 : 6);
      std::vector<int> ops;
      for (int i = 0; i < n; ++i) ops.push_back(c.choose(6));
      Bytes code = rr::encode(ch), other = rr::encode(kChains[(&ch - &kChains[0] + 5) % kChains.size()]);
      balanced(c, [&] {
        World w(c, keep);
        bool live = w.decode(code), first = true;
        if (!live) c.fail("after" + w.h + ": decoding " + show(ch) + " failed");
        for (int o : ops) {
          if (o == 4) { live = w.decode(first ? other : code); first = !first; }
          else if (o == 5) { live = w.decode(bad); if (live) c.fail("decoding " + hex(bad) + " did not fail"); }
          else if (!live) continue;  // nothing may be put into a runner without operators
          else if (o == 3) w.get();
          else w.put(kRows[o == 0 ? 4 : o]);
          c.state(mc::hashStr(w.h, keep));
        }
        w.destroy();
        return w.h;
      });
      if (c.wantSample()) c.sample(show(ch));
    });
    mc::phase("row-sequences", "20 chains x all sequences of up to 5 (thorough: 6) rows from 5, fully drained or destroyed while 0..2 results were taken", 3, [=](mc::Ctx &c) {
      const Chain &ch = c.pick(kChains);
      int takes = c.choose(4);
      int n = c.choose(th ? 7 : 6);
      std::vector<int> rows;
      for (int i = 0; i < n; ++i) rows.push_back(c.choose(5));
      Bytes code = rr::encode(ch);
      balanced(c, [&] {
        World w(c, takes & 1);
        w.decode(code);
        for (int i : rows) w.put(kRows[i]);
        if (takes == 3) { for (int i = 0; i < 50 && w.get(); ++i) {} }
        else for (int i = 0; i < takes; ++i) w.get();
        w.destroy();
        return w.h;
      });
    });
    mc::phase("failed-decodes", "each chain truncated at every byte, or with every byte replaced by each of 24 values (thorough: all 256), decoded into a fresh runner, into one with pending results, and followed by a good decode", 3, [=](mc::Ctx &c) {
      static const std::vector<int> some = {0x00, 0x01, 0x06, 0x07, 0x10, 0x11, 0x15, 0x17, 0x20, 0x27, 0x31, 0x36, 0x40, 0x52, 0x61, 0x62, 0x71, 0x72, 0x73, 0x74, 0x7F, 0x80, 0xF1, 0xFF};
      const Chain &ch = c.pick(kChains);
      int how = c.choose(3);
      Bytes code = rr::encode(ch), good = code;
      size_t i = c.choose((int)code.size());
      int k = c.choose(th ? 257 : (int)some.size() + 1);
      if (k == 0) code.resize(i);
      else code[i] = (unsigned char)(th ? k - 1 : some[k - 1]);
      balanced(c, [&] {
        World w(c, false);
        if (how == 1) {
          w.decode(good);
          for (auto &r : kRows) w.put(r);
        }
        w.decode(code);
        if (how == 2) {
          w.decode(good);
          for (auto &r : kRows) w.put(r);
          w.get();
        }
        w.destroy();
        return w.h;
      });
    });
    mc::phase("no-growth", "20 chains x each row: while the same row is put 512 times (outputs released) what is retained does not keep growing; same for rows that differ but belong to one group, for batches of 40 groups taken completely each time, and for rows of which each has other values than all before (a group of its own) and after each of which all results are taken", 2, [=](mc::Ctx &c) {
      const Chain &ch = c.pick(kChains);
      int kind = c.choose(8);
      World w(c, false);
      w.decode(rr::encode(ch));
      std::string what = show(ch) + " with row kind " + std::to_string(kind);
      int64_t mark[6];
      for (int m = 0; m < 6; ++m) {
        int n = m == 0 ? 32 : 16 << m;
        for (int i = 0; i < n; ++i) {
          if (kind < 5) w.put(kRows[kind], true);
          else if (kind == 5) w.put(row(1, i % 100, "x"), true);
          else if (kind == 7) {
            int64_t u = (int64_t)m * 100000 + i;
            w.put(row(u, (double)u * (i % 3 ? 1 : 1e15), (std::to_string(u) + " a text which no other row has").c_str()), true);
            w.h.clear();
            for (int q = 0; q < 200 && w.get(); ++q) {}
          }
          else {
            std::string s = "group" + std::to_string(i % 40);
            w.put(row(i % 40, i % 3, s.c_str()), true);
            if (i % 40 == 39) { w.h.clear(); for (int q = 0; q < 200 && w.get(); ++q) {} }
          }
          c.tick();
        }
        if (kind == 6) { w.h.clear(); for (int q = 0; q < 200 && w.get(); ++q) {} }
        mark[m] = al::g_bytes;
      }
      bool grows = true;
      for (int m = 1; m < 6; ++m) grows = grows && mark[m] > mark[m - 1];
      if (grows) c.fail(what + ": the memory retained grows with every row, " + std::to_string(mark[0]) + " bytes after 32 rows, " + std::to_string(mark[5]) + " after " + std::to_string(32 * 32));
      c.state(mc::hashStr(what));
      c.outcome((uint64_t)(mark[5] > mark[0]));
    });
    mc::phase("programs-no-growth", "1008 programs of which each has other constants (texts of 1, 40 or 300 characters, 64-bit integers, doubles, all of them) in a filter, a projection, or both around an aggregation: decoded and destroyed, decoded by the same runner one after the other, or rejected (cut off at the end, or an unknown byte added); with a row put and results taken or not: what is retained does not keep growing", 2, [=](mc::Ctx &c) {
      int cons = c.choose(6), shape = c.choose(3), life = c.choose(4), use = c.choose(2);
      std::string what = "constants " + std::to_string(cons) + " shape " + std::to_string(shape) + " life " + std::to_string(life) + " use " + std::to_string(use);
      std::unique_ptr<World> w(new World(c, false));
      int64_t mark[6];
      for (int m = 0; m < 6; ++m) {
        int n = 16 << m;
        for (int i = 0; i < n; ++i) {
          int64_t u = (int64_t)(m + 1) * 1000003 + i * 7;
          std::string s = std::to_string(u);
          Prog vals;
          auto text = [&](size_t len) { std::string t = len < 8 ? s.substr(s.size() - 5) : s; t.resize(std::max(len, t.size()), 'T'); return Val::str(t); };
          if (cons == 0 || cons == 5) vals.push_back(iConst(text(1), STR));
          if (cons == 1 || cons == 5) vals.push_back(iConst(text(40), STR));
          if (cons == 2 || cons == 5) vals.push_back(iConst(text(300), STR));
          if (cons == 3 || cons == 5) vals.push_back(iConst(Val::i64(u * u), I64));
          if (cons == 4 || cons == 5) vals.push_back(iConst(Val::f64(u * 0.1), F64));
          Prog pred = vals;
          pred.push_back(iConst(Val::b(true), BOOL));
          std::vector<Prog> cols;
          for (auto &i : vals) cols.push_back(Prog{i});
          Chain ch;
          if (shape == 0) ch = {filter(pred)};
          else if (shape == 1) ch = {project(cols)};
          else ch = {filter(pred), grouped({0}, {{AggSpec::Count, I64, 0}}), project(cols)};
          Bytes b = rr::encode(ch);
          if (life == 2) b.push_back(0x7F);
          if (life == 3) { if (shape != 0) b.pop_back(); b.pop_back(); b.pop_back(); }
          w->h.clear();
          w->decode(b);
          if (use && life < 2) {
            w->put(kRows[0], true);
            for (int q = 0; q < 5 && w->get(); ++q) {}
          }
          if (life == 0) { w.reset(); w.reset(new World(c, false)); }
        }
        c.tick();
        mark[m] = al::g_bytes;
      }
      bool grows = true;
      for (int m = 1; m < 6; ++m) grows = grows && mark[m] > mark[m - 1];
      if (grows) c.fail(what + ": the memory retained grows with every program, " + std::to_string(mark[0]) + " bytes after 16 programs, " + std::to_string(mark[5]) + " after 1008");
      c.state(mc::hashStr(what));
      c.outcome((uint64_t)(mark[5] > mark[0]));
    });
    mc::phase("groups-only", "grouped aggregations with n = 1..64 groups of m = 1..6 rows pending: what is retained does not keep growing with m (thorough: n to 256)", 2, [=](mc::Ctx &c) {
      int n = 1 + c.choose(th ? 256 : 64);
      int which = c.choose(3);
      const Chain ch = which == 0 ? Chain{kChains[3]} : which == 1 ? Chain{kChains[10]} : Chain{kChains[8]};
      World w(c, false);
      w.decode(rr::encode(ch));
      int64_t mark[6];
      bool grows = true;
      for (int m = 0; m < 6; ++m) {
        for (int g = 0; g < n; ++g) w.put(row(g, 1, ("g" + std::to_string(g) + "ABCDEFGHIJKLMNOPQRSTUVWXYZ").c_str()), true);
        mark[m] = al::g_blocks;
        if (m) grows = grows && mark[m] > mark[m - 1];
        c.tick();
      }
      if (grows) c.fail(show(ch) + ": " + std::to_string(mark[0]) + " blocks for " + std::to_string(n) + " groups of one row, " + std::to_string(mark[5]) + " when each has 6, more with every row");
      c.state(mc::mix(n, which));
    });
  });
}
