// R02: projections.
#include "pool.h"
#include "relref.h"
using namespace rr;

static std::vector<Prog> g_exprs;
static std::vector<Row> g_rows;

int main(int argc, char **argv) {
  return mc::mcMain(argc, argv, [] {
    // columns: i32, str, i64
    for (auto &a : {Val(), Val::i32(3), Val::i32(-7)})
      for (auto &s : {Val(), Val::str("row"), Val::str("")})
        for (auto &b : {Val(), Val::i64(1LL << 35)}) g_rows.push_back({a, s, b});
    g_exprs = {
        var(I32, 0), var(STR, 1), var(I64, 2), lit(Val::str("const"), STR), lit(Val(), F64), apply2(var(I32, 0), lit(Val::i32(1), I32), "SUB<i32>"), apply2(var(STR, 1), lit(Val::str("+"), STR), "CONCAT"),
        apply2(lit(Val::i32(1), I32), var(I32, 0), "LT<i32>"), apply1(var(I64, 2), "CAST<str,i64>"), apply1(var(STR, 1), "UPPER"), apply1(var(I32, 0), "IS_NULL<i32>"),
        apply2(lit(Val::i64(9), I64), lit(Val::i64(0), I64), "MOD<i64>"),
    };
    int L = mc::thorough() ? 5 : 4;
    mc::phase("lists", "all lists of 0..4 (thorough: 5) expressions from 12 (columns, literals, NULL, operators, casts) x all pairs of consecutive rows over 18; all outputs kept to the end and compared again after more rows and after the runner is gone", 3, [=](mc::Ctx &c) {
      int n = c.choose(L + 1);
      std::vector<Prog> list;
      bool eoe = c.choose(2);
      c.choose(1);
      for (int i = 0; i < n; ++i) list.push_back(c.pick(g_exprs));
      Chain ch{project(list)};
      const std::string text = rr::show(ch);
      const uint64_t textHash = mc::hashStr(text);
      c.note(text);
      RefChain ref(ch);
      std::vector<std::pair<const expr::Tuple *, Row>> outs;
      {
        Real r;
        r.decode(rr::encode(ch, true, eoe));
        auto put = [&](const Row &row) {
          Row want;
          ref.put(row, want);
          const expr::Tuple *o = r.runner()->Put(new expr::Tuple(real::toTuple(row)));
          c.steps();
          if (!o) c.fail(rr::show(ch) + " gives no output for " + ref::show(row));
          outs.push_back({o, want});
          Row got = real::fromTuple(*o, &want);
          c.outcome(hashRow(want));
          c.state(mc::mix(hashRow(want), textHash));
          if (!same(got, want)) c.fail(rr::show(ch) + " on " + ref::show(row) + " gives " + ref::show(got) + ", expected " + ref::show(want));
        };
        // every row after every other row: a closed walk over all ordered pairs
        size_t m = g_rows.size();
        size_t st = n >= 3 ? 5 : 1;
        for (size_t a = 0; a < m; a += st)
          for (size_t b = 0; b < m; b += n >= 3 ? 3 : 1) { put(g_rows[a]); put(g_rows[b]); }
        if (r.runner()->Get() != nullptr) c.fail(rr::show(ch) + ": taking results gives one although all rows were answered");
      }
      for (auto &o : outs) {
        Row got = real::fromTuple(*o.first, &o.second);
        if (!same(got, o.second)) c.fail(rr::show(ch) + ": an earlier output changed from " + ref::show(o.second) + " to " + ref::show(got));
        delete o.first;
      }
      if (c.wantSample()) c.sample(rr::show(ch));
    });
    mc::phase("long", "4 lists x 70000 (thorough: 2000000) different rows", 1, [](mc::Ctx &c) {
      int k = c.choose(4);
      std::vector<Prog> list = k == 0 ? std::vector<Prog>{var(I64, 2), var(STR, 1), var(I32, 0)} : k == 1 ? std::vector<Prog>{g_exprs[6], g_exprs[5]} : k == 2 ? std::vector<Prog>{g_exprs[8]} : std::vector<Prog>{g_exprs[3], g_exprs[10], g_exprs[7], g_exprs[0]};
      Chain ch{project(list)};
      Driver d(c, ch, rr::encode(ch));
      int n = mc::thorough() ? 2000000 : 70000;
      for (int i = 0; i < n; ++i) {
        d.put({i % 11 ? Val::i32(i * 37) : Val(), i % 7 ? Val::str("v" + std::to_string(i % 1000)) : Val(), Val::i64(i)});
        if ((i & 1023) == 0) c.tick();
      }
    });
    mc::phase("no-columns", "rows without any column, and rows of one: all lists of 0..3 expressions over literals and operators on literals x all sequences of up to 4 (thorough: 6) rows; results equal to their row included", 3, [](mc::Ctx &c) {
      static const std::vector<Prog> ex = {lit(Val::i32(5), I32), lit(Val(), STR), lit(Val::str("s"), STR), apply2(lit(Val::i64(2), I64), lit(Val::i64(3), I64), "ADD<i64>"), lit(Val::b(true), BOOL)};
      static const std::vector<Row> rows = {{}, {Val::i32(5)}, {Val()}, {Val::str("s")}, {Val::i32(5), Val::str("s")}};
      std::vector<Prog> list;
      int n = c.choose(4);
      c.choose(1);
      for (int i = 0; i < n; ++i) list.push_back(c.pick(ex));
      Chain ch{project(list)};
      if (c.choose(2)) ch.push_back(project(list));
      Driver d(c, ch, rr::encode(ch));
      int m = 1 + c.choose(mc::thorough() ? 6 : 4);
      for (int i = 0; i < m; ++i) d.put(c.pick(rows));
      d.drain();
    });
    mc::phase("unchanged", "projections that give back their row: one to four columns in their order, alone, twice, and before and after a filter, on all sequences of 3 (thorough: 6) of 6 rows", 3, [](mc::Ctx &c) {
      static const std::vector<T> ts = {I32, STR, I64, F64};
      int w = 1 + c.choose(4), shape = c.choose(4);
      std::vector<Prog> list;
      for (int i = 0; i < w; ++i) list.push_back(var(ts[i], i));
      Chain ch{project(list)};
      auto pass = filter(lit(Val::b(true), BOOL));
      if (shape == 1) ch.push_back(project(list));
      if (shape == 2) ch = {pass, project(list), pass};
      if (shape == 3) ch = {project(list), pass, project(list), project(list)};
      Driver d(c, ch, rr::encode(ch));
      for (int i = 0; i < (mc::thorough() ? 6 : 3); ++i) {
        int k = c.choose(6);
        Row all = {k & 1 ? Val() : Val::i32(k), k == 2 ? Val() : Val::str(std::string(k * 7, 'u')), Val::i64(k), k == 4 ? Val() : Val::f64(k / 2.0)};
        all.resize(w);
        d.put(all);
      }
      d.drain();
    });
    mc::phase("wide", "projections of up to 60 columns (thorough: 1100) and numbers around the powers of two and ten to 2^14 and rows of as many: reordered, repeated, shifted", 2, [](mc::Ctx &c) {
      static const std::vector<int> big = mc::sizes(61, 16385);
      const int all = mc::thorough() ? 1100 : 60;
      int w = 1 + c.choose(all + (int)big.size());
      if (w > all) w = big[w - all - 1];
      int kind = c.choose(3);
      Row row;
      std::vector<Prog> list;
      for (int i = 0; i < w; ++i) row.push_back(i % 7 == 6 ? Val() : i % 2 ? Val::str("c" + std::to_string(i)) : Val::i32(i));
      for (int i = 0; i < w; ++i) {
        int j = kind == 0 ? w - 1 - i : kind == 1 ? i / 2 : (i * 7 + 3) % w;
        list.push_back(var(j % 2 ? STR : I32, j));
      }
      Chain ch{project(list)};
      Driver d(c, ch, rr::encode(ch));
      for (int k = 0; k < 3; ++k) {
        d.put(row);
        for (auto &v : row) if (v.t == I32) v = Val::i32((int)v.i + 1000);
      }
    });
    mc::phase("chains", "every pair of projections (from 8 shapes) after one another on all rows", 2, [](mc::Ctx &c) {
      static const std::vector<Chain> shapes = {
          {project({var(I32, 0), var(STR, 1), var(I64, 2)})}, {project({apply2(var(I32, 0), var(I32, 0), "ADD<i32>"), apply2(var(STR, 1), var(STR, 1), "CONCAT"), var(I64, 2)})},
          {project({lit(Val::i32(5), I32), var(STR, 1), apply1(var(I32, 0), "CAST<i64,i32>")})}, {project({var(I32, 0), apply1(var(I64, 2), "CAST<str,i64>"), var(I64, 2)})},
          {project({lit(Val(), I32), lit(Val(), STR), lit(Val(), I64)})}, {project({apply1(var(I64, 2), "CAST<i32,i64>"), var(STR, 1), var(I64, 2), var(STR, 1)})},
          {project({apply1(var(I32, 0), "NEG<i32>"), apply1(var(STR, 1), "LOWER"), apply1(var(I64, 2), "NEG<i64>")})}, {filter(apply1(var(I32, 0), "IS_TRUE<i32>"))}};
      Chain ch{c.pick(shapes)[0], c.pick(shapes)[0]};
      Driver d(c, ch, rr::encode(ch));
      for (auto &r : g_rows) d.put(r);
      d.drain();
    });
  });
}
