// R05: chains of operators.
#include "pool.h"
#include "relref.h"
using namespace rr;

// All columns are 64-bit integers; indices are folded into the current width so that every operator fits anywhere.
static const AggSpec kAll{AggSpec::CountAll, NUL, 0};
constexpr int kConfigs = 14;
static OpSpec make(int k, int &w) {
  int a = 0, b = 1 % w, last = w - 1;
  auto v = [](int i) { return var(I64, i); };
  auto n = [](int64_t x) { return lit(Val::i64(x), I64); };
  switch (k) {
  case 0: return filter(apply2(v(a), n(1), "GT<i64>"));                // NULL when the column is
  case 1: return filter(apply2(v(b), v(a), "LE<i64>"));
  case 2: return filter(apply1(v(last), "IS_NULL<i64>"));
  case 3: return filter(lit(Val(), BOOL));                             // passes nothing
  case 4: { OpSpec o = project({v(b), v(a)}); w = 2; return o; }       // swap
  case 5: { OpSpec o = project({apply2(v(a), v(b), "ADD<i64>"), v(last)}); w = 2; return o; }
  case 6: { OpSpec o = project({v(b)}); w = 1; return o; }             // narrower
  case 7: { OpSpec o = project({v(a), n(7), v(a)}); w = 3; return o; } // wider
  case 8: { OpSpec o = grouped({a}, {{AggSpec::Sum, I64, b}, kAll}); w = 3; return o; }
  case 9: { OpSpec o = grouped({b, a}, {{AggSpec::Max, I64, last}}); w = 3; return o; }
  case 10: { OpSpec o = grouped({}, {kAll, {AggSpec::Sum, I64, a}}); w = 2; return o; }
  case 11: { OpSpec o = grouped({last}, {}); w = 1; return o; }        // distinct
  case 12: { OpSpec o = ungrouped({{AggSpec::Sum, I64, a}, kAll}); w = 2; return o; }
  default: { OpSpec o = ungrouped({{AggSpec::Min, I64, b}, {AggSpec::Max, I64, a}, {AggSpec::Count, I64, b}}); w = 3; return o; }
  }
}
static Row r2(int64_t a, int64_t b) { return {Val::i64(a), Val::i64(b)}; }
static const std::vector<Row> kRows = {r2(1, 2), r2(2, 1), {Val(), Val::i64(1)}, {Val::i64(1), Val()}, r2(2, 2)};

static void driveAll(mc::Ctx &c, const Chain &ch, int maxRows, bool eoe) {
  Driver d(c, ch, rr::encode(ch, eoe, eoe));
  int n = c.choose(maxRows + 1);
  for (int i = 0; i < n; ++i) d.put(c.pick(kRows));
  d.drain();
  // further batches
  d.put(kRows[0]);
  d.put(kRows[4]);
  d.put(kRows[0]);
  d.drain();
  d.drain();
  if (c.wantSample()) c.sample(d.text());
}

int main(int argc, char **argv) {
  return mc::mcMain(argc, argv, [] {
    bool th = mc::thorough();
    mc::phase("chains-1-2", "all chains of 1 and 2 operators from 14 (4 filters, 4 projections changing order and width, 4 grouped and 2 ungrouped aggregations), with and without optional end markers x all sequences of up to 5 rows (thorough: 6; quick: pairs 4) from 5; drained, two more batches", 3, [=](mc::Ctx &c) {
      int n = 1 + c.choose(2);
      bool eoe = c.choose(2);
      Chain ch;
      int w = 2;
      for (int i = 0; i < n; ++i) ch.push_back(make(c.choose(kConfigs), w));
      driveAll(c, ch, th ? 6 : n == 1 ? 5 : 4, eoe);
    });
    mc::phase("chains-3", "all chains of 3 operators from the 14 x all sequences of up to 3 rows (thorough: 5) from 5", 3, [=](mc::Ctx &c) {
      Chain ch;
      int w = 2;
      for (int i = 0; i < 3; ++i) ch.push_back(make(c.choose(kConfigs), w));
      driveAll(c, ch, th ? 5 : 3, true);
    });
    mc::phase("chains-4", "all chains of 4 operators from the 14 on one fixed batch of 7 rows and then all sequences of up to 1 row (thorough: 3)", 3, [=](mc::Ctx &c) {
      Chain ch;
      int w = 2;
      for (int i = 0; i < 4; ++i) ch.push_back(make(c.choose(kConfigs), w));
      Driver d(c, ch, rr::encode(ch));
      for (auto &r : kRows) d.put(r);
      d.put(r2(5, -3));
      d.put(r2(2, 1));
      d.drain();
      int n = c.choose(th ? 4 : 2);
      for (int i = 0; i < n; ++i) d.put(c.pick(kRows));
      d.drain();
    });
    for (int len = 5; len <= (th ? 6 : 4); ++len)
      mc::phase(len == 5 ? "chains-5" : "chains-6", "all chains of 5 (and of 6) operators from the 14, one batch of 7 rows, then one of 1", 3, [=](mc::Ctx &c) {
        Chain ch;
        int w = 2;
        for (int i = 0; i < len; ++i) ch.push_back(make(c.choose(kConfigs), w));
        Driver d(c, ch, rr::encode(ch));
        for (auto &r : kRows) d.put(r);
        d.put(r2(5, -3));
        d.put(r2(2, 1));
        d.drain();
        d.put(kRows[1]);
        d.drain();
      });
    mc::phase("typed-chains", "all chains of up to 3 operators from 12 over three columns of different types (int, string, double) whose places change: string and real filters, projections with CONCAT, LOWER, casts between all three, grouping by a string, a pair, a real, aggregates of each type x all sequences of up to 3 rows (thorough: 4) from 5 with NULLs, two batches", 3, [=](mc::Ctx &c) {
      int pi = 0, ps = 1, pf = 2;
      Chain ch;
      int n = 1 + c.choose(3);
      for (int i = 0; i < n; ++i) {
        Prog I = var(I32, pi), S = var(STR, ps), F = var(F64, pf);
        switch (c.choose(12)) {
        case 0: ch.push_back(filter(apply2(S, lit(Val::str("m"), STR), "LT<str>"))); break;
        case 1: ch.push_back(filter(apply2(F, lit(Val::f64(1), F64), "GE<f64>"))); break;
        case 2: ch.push_back(filter(apply1(apply1(S, "IS_NULL<str>"), "NOT"))); break;
        case 3: ch.push_back(project({apply2(I, lit(Val::i32(1), I32), "ADD<i32>"), apply2(S, S, "CONCAT"), apply2(F, F, "ADD<f64>")})); pi = 0; ps = 1; pf = 2; break;
        case 4: ch.push_back(project({F, apply1(S, "LOWER"), I})); pf = 0; ps = 1; pi = 2; break;
        case 5: ch.push_back(project({apply1(I, "CAST<str,i32>"), apply1(I, "CAST<f64,i32>"), apply1(F, "CAST<i32,f64>")})); ps = 0; pf = 1; pi = 2; break;
        case 6: ch.push_back(grouped({ps}, {{AggSpec::Sum, I32, pi}, {AggSpec::Sum, F64, pf}})); ps = 0; pi = 1; pf = 2; break;
        case 7: ch.push_back(grouped({ps, pi}, {{AggSpec::Max, F64, pf}})); ps = 0; pi = 1; pf = 2; break;
        case 8: ch.push_back(grouped({pf}, {{AggSpec::Min, STR, ps}, {AggSpec::Max, I32, pi}})); pf = 0; ps = 1; pi = 2; break;
        case 9: ch.push_back(ungrouped({{AggSpec::Max, STR, ps}, {AggSpec::Sum, I32, pi}, {AggSpec::Min, F64, pf}})); ps = 0; pi = 1; pf = 2; break;
        case 10: ch.push_back(project({S, I, S, F})); ps = 2; pi = 1; pf = 3; break;
        default: ch.push_back(grouped({pi, pf}, {{AggSpec::CountAll, NUL, 0}, {AggSpec::Max, STR, ps}})); pi = 0; pf = 1; ps = 3; break;
        }
      }
      static const std::vector<Row> rows = {{Val::i32(1), Val::str("a"), Val::f64(0.5)}, {Val::i32(1), Val::str("Z"), Val::f64(2)}, {Val(), Val::str("a"), Val::f64(2)}, {Val::i32(-7), Val(), Val::f64(0.5)}, {Val::i32(2), Val::str("za"), Val()}};
      Driver d(c, ch, rr::encode(ch));
      int m = c.choose(th ? 5 : 4);
      for (int i = 0; i < m; ++i) d.put(c.pick(rows));
      d.drain();
      for (auto &r : rows) d.put(r);
      d.drain();
      if (c.wantSample()) c.sample(d.text());
    });
    mc::phase("long", "6 chains of four operators x 70000 rows in batches of 1, 1000 and 70000", 2, [](mc::Ctx &c) {
      int k = c.choose(6), b = c.choose(3);
      static const int cs[6][4] = {{0, 5, 8, 12}, {4, 1, 5, 7}, {5, 9, 0, 13}, {7, 10, 4, 6}, {11, 12, 7, 0}, {2, 4, 13, 5}};
      Chain ch;
      int w = 2;
      for (int i = 0; i < 4; ++i) ch.push_back(make(cs[k][i], w));
      Driver d(c, ch, rr::encode(ch));
      int batch = b == 0 ? 1 : b == 1 ? 1000 : 70000;
      for (int i = 0; i < 70000; ++i) {
        d.put({i % 9 ? Val::i64(i % 50) : Val(), Val::i64(i % 50 / 7 - i % 3)});
        if (i % batch == batch - 1) d.drain();
        if ((i & 1023) == 0) c.tick();
      }
      d.drain();
    });
    mc::phase("many-runners", "n runners alive at once, for n in 1..24 and around the powers of two and ten to 1024 (thorough: 4097), with 7 different chains; rows put into them in turn, drained one after the other (forwards, backwards), every fifth destroyed before with results pending or not, and all filled and drained again", 2, [=](mc::Ctx &c) {
      static const std::vector<int> big = mc::sizes(25, th ? 4097 : 1025);
      int i = c.choose(24 + (int)big.size());
      int n = i < 24 ? i + 1 : big[i - 24], how = c.choose(4);
      static const int cs[7][3] = {{8, 0, 12}, {0, 4, 5}, {9, 5, 8}, {12, 4, 7}, {4, 8, 2}, {11, 7, 10}, {10, 0, 13}};
      std::vector<std::unique_ptr<Driver>> ds(n);
      auto make1 = [&](int k) {
        Chain ch;
        int w = 2;
        for (int x : cs[k % 7]) ch.push_back(make(x, w));
        ds[k].reset(new Driver(c, ch, rr::encode(ch)));
      };
      for (int k = 0; k < n; ++k) make1(how & 1 ? n - 1 - k : k);
      for (int batch = 0; batch < 2; ++batch) {
        for (int j = 0; j < 4; ++j)
          for (int k = 0; k < n; ++k) ds[k]->put(j == 2 ? kRows[k % 5] : r2((k + j) % 3, k + batch));
        c.tick();
        if (batch == 0 && how & 2) for (int k = 0; k < n; k += 5) { ds[k].reset(); make1(k); ds[k]->put(r2(1, 2)); }
        for (int k = 0; k < n; ++k) ds[how & 1 ? k : n - 1 - k]->drain();
        c.tick();
      }
      c.state(mc::mix(n, how));
    });
    mc::phase("no-columns", "all chains of up to 3 of {project to nothing, to a literal, pass all, pass nothing, group by nothing counting, by nothing with no aggregate, aggregate counting, aggregate of nothing} x 0..3 rows without columns or with one, two batches", 3, [](mc::Ctx &c) {
      static const std::vector<OpSpec> os = {project({}), project({lit(Val::i64(4), I64)}), filter(lit(Val::b(true), BOOL)), filter(lit(Val(), BOOL)), grouped({}, {kAll}), grouped({}, {}), ungrouped({kAll}), ungrouped({})};
      Chain ch;
      int n = 1 + c.choose(3);
      for (int i = 0; i < n; ++i) ch.push_back(c.pick(os));
      Driver d(c, ch, rr::encode(ch));
      for (int b = 0; b < 2; ++b) {
        int m = c.choose(4);
        bool one = c.choose(2);
        for (int i = 0; i < m; ++i) d.put(one ? Row{Val::i64(i)} : Row{});
        d.drain();
      }
    });
    mc::phase("long-chains", "chains of every length up to 60 (thorough: 200): increments with passing filters, one aggregation at each position or at none", 2, [=](mc::Ctx &c) {
      int n = 1 + c.choose(th ? 200 : 60);
      int agg = c.choose(3);
      int pos = agg ? c.choose(n) : -1;
      Chain ch;
      for (int i = 0; i < n; ++i) {
        if (i == pos && agg == 1) ch.push_back(ungrouped({{AggSpec::Sum, I64, 0}, {AggSpec::Max, I64, 1}}));
        else if (i == pos) ch.push_back(grouped({1}, {{AggSpec::Min, I64, 0}}));
        else if (i % 3 == 1) ch.push_back(filter(apply2(var(I64, 0), lit(Val::i64(-1000), I64), "GT<i64>")));
        else ch.push_back(project({apply2(var(I64, 0), lit(Val::i64(i + 1), I64), "ADD<i64>"), var(I64, 1)}));
      }
      Driver d(c, ch, rr::encode(ch));
      for (int b = 0; b < 2; ++b) {
        for (auto &r : kRows) d.put(r);
        d.drain();
      }
    });
    mc::phase("huge-chains", "chains of 3000, 30000 and 300000 operators (passing filters, increments, sums over what comes before, filters behind one grouping, a failed decode of them): put, taken and destroyed", 2, [](mc::Ctx &c) {
      int kind = c.choose(5);
      int n = std::vector<int>{3000, 30000, 300000}[c.choose(3)];
      std::string what = std::to_string(n) + " operators of kind " + std::to_string(kind);
      c.note(what);
      const OpSpec pass = filter(apply2(var(I64, 0), lit(Val::i64(-1000), I64), "GT<i64>")), inc = project({apply2(var(I64, 0), lit(Val::i64(1), I64), "ADD<i64>")});
      const OpSpec sum = ungrouped({{AggSpec::Sum, I64, 0}}), groups = grouped({0}, {kAll});
      const Bytes one = rr::encode(Chain{kind == 1 ? inc : kind == 2 ? sum : pass});
      Bytes b = kind == 3 ? rr::encode(Chain{groups}) : Bytes();
      for (int i = 0; i < n; ++i) b += one;
      if (kind == 4) b.push_back(0x7F);
      Real r;
      bool raised = false;
      try {
        r.decode(b);
      } catch (std::exception &) {
        raised = true;
      }
      c.tick();
      if (raised != (kind == 4)) c.fail(what + (raised ? ": not accepted" : ": an unknown operator at the end is accepted"));
      c.state(mc::mix(kind, n));
      if (raised) return;
      for (int batch = 0; batch < 2; ++batch) {
        std::vector<Row> got;
        Row out;
        for (int i = 0; i < 3; ++i) {
          if (r.put({Val::i64(i / 2)}, out) == 1) got.push_back(out);
          c.tick();
        }
        while (got.size() < 10 && r.get(out) == 1) { got.push_back(out); c.tick(); }
        c.steps(3);
        std::vector<Row> want;
        if (kind == 0) want = {{Val::i64(0)}, {Val::i64(0)}, {Val::i64(1)}};
        else if (kind == 1) want = {{Val::i64(n)}, {Val::i64(n)}, {Val::i64(n + 1)}};
        else if (kind == 2) want = {{Val::i64(1)}};
        else want = {{Val::i64(0), Val::i64(2)}, {Val::i64(1), Val::i64(1)}};
        std::string df = diffRows(got, want);
        if (!df.empty()) c.fail(what + ", batch " + std::to_string(batch) + ": " + df);
      }
    });
    mc::phase("interleaved-takes", "9 chains with one to three aggregations x all histories of up to 8 (thorough: 11) of {put 2 different rows, take one result}, then drained: the counts carried through all stages add up to the rows put (nothing lost, duplicated or stuck)", 2, [=](mc::Ctx &c) {
      // column 0 carries a key, column 1 the number of rows it stands for
      auto G1 = grouped({0}, {kAll}), U1 = ungrouped({{AggSpec::Max, I64, 0}, kAll});
      auto G2 = grouped({0}, {{AggSpec::Sum, I64, 1}}), U2 = ungrouped({{AggSpec::Min, I64, 0}, {AggSpec::Sum, I64, 1}});
      auto F = filter(apply2(var(I64, 1), lit(Val::i64(0), I64), "GT<i64>"));
      auto P = project({apply2(var(I64, 0), lit(Val::i64(2), I64), "MUL<i64>"), var(I64, 1)});
      const std::vector<Chain> chains = {{G1}, {U1}, {G1, G2}, {G1, U2}, {U1, G2}, {U1, U2}, {F, G1, F, P, G2}, {P, G1, P, U2, F}, {G1, G2, U2}};
      const Chain &ch = c.pick(chains);
      Real r;
      r.decode(rr::encode(ch));
      std::string h = show(ch);
      int64_t put = 0, got = 0;
      auto take = [&] {
        Row out;
        int g = r.get(out);
        c.steps();
        if (g == 2) c.fail(h + ": raised " + r.what());
        if (g == 0) return false;
        if (out.size() != 2 || out[1].t != I64 || out[1].i <= 0) c.fail(h + ": odd result " + ref::show(out));
        got += out[1].i;
        if (got > put) c.fail(h + ": results stand for " + std::to_string(got) + " rows, only " + std::to_string(put) + " were put");
        return true;
      };
      int n = th ? 11 : 8;
      for (int i = 0; i < n; ++i) {
        int k = c.choose(3);
        if (k < 2) {
          h += " put" + std::to_string(k);
          Row out;
          if (r.put(r2(k + 1, 3), out)) c.fail(h + ": output or error while putting");
          c.steps();
          ++put;
        } else {
          h += " get";
          bool some = take();
          if (!some && got != put) c.fail(h + ": nothing, but " + std::to_string(put - got) + " rows are unaccounted for");
        }
        c.state(mc::hashStr(h));
      }
      while (take()) {}
      if (got != put) c.fail(h + ": drained, but " + std::to_string(put - got) + " rows are unaccounted for");
      Row out;
      if (r.get(out)) c.fail(h + ": taking again gives something");
    });
  });
}
