// R03: ungrouped aggregation.
#include "pool.h"
#include "relref.h"
using namespace rr;

static Dom colDom(T t) {
  switch (t) {
  case I32: return {Val(), Val::i32(0), Val::i32(5), Val::i32(-7), Val::i32(INT32_MAX), Val::i32(INT32_MIN)};
  case I64: return {Val(), Val::i64(0), Val::i64(5), Val::i64(-7), Val::i64(INT64_MAX), Val::i64(INT64_MIN)};
  case F32: return {Val(), Val::f32(0.0f), Val::f32(1.5f), Val::f32(-2.25f), Val::f32(4096.0f), Val::f32(-0.0f)};
  case F64: return {Val(), Val::f64(0.0), Val::f64(1.5), Val::f64(-2.25), Val::f64(1048576.0), Val::f64(-INFINITY)};
  case BOOL: return {Val(), Val::b(false), Val::b(true)};
  default: return {Val(), Val::str(""), Val::str("b"), Val::str("a"), Val::str(std::string("a\0", 2)), Val::str("\xff")};
  }
}
static std::map<int, Dom> g_dom;

int main(int argc, char **argv) {
  return mc::mcMain(argc, argv, [] {
    for (T t : kTypes) g_dom[t] = colDom(t);
    static std::vector<AggSpec> specs = allAggs(0);
    int L = mc::thorough() ? 7 : 5;
    mc::phase("single", "each of the 21 aggregates x all sequences of up to 5 (thorough: 7) values (NULL, limits, zeros, duplicates) of its column, two batches", 3, [=](mc::Ctx &c) {
      const AggSpec &a = c.pick(specs);
      int n = c.choose(L + 1);
      bool eoe = c.choose(2);
      T t = a.k == AggSpec::CountAll ? I32 : a.t;
      Chain ch{ungrouped({a})};
      Driver d(c, ch, rr::encode(ch, eoe, eoe));
      std::vector<Row> rows;
      for (int i = 0; i < n; ++i) rows.push_back({c.pick(g_dom[t])});
      for (auto &r : rows) d.put(r);
      d.drain();
      // afresh: the same rows backwards give the same result
      std::vector<Row> first = d.last();
      for (auto i = rows.rbegin(); i != rows.rend(); ++i) d.put(*i);
      d.drain();
      if (!diffRows(d.last(), first).empty()) c.fail(d.text() + ": the result depends on the order");
      if (n) d.put(rows[0]);
      d.drain();
      if (c.wantSample()) c.sample(d.text());
    });
    mc::phase("lists", "all lists of up to 3 aggregates from 14 over two columns (repeated, mixed types, different columns) x all sequences of up to 2 rows from 7, or 3 rows and up to 2 aggregates (thorough: 4 rows and 3 aggregates)", 3, [](mc::Ctx &c) {
      static const std::vector<AggSpec> sp = {{AggSpec::CountAll, NUL, 0}, {AggSpec::Count, I32, 0}, {AggSpec::Count, STR, 1}, {AggSpec::Sum, I32, 0}, {AggSpec::Max, I32, 0}, {AggSpec::Min, I32, 0}, {AggSpec::Max, STR, 1}, {AggSpec::Min, STR, 1},
                                              {AggSpec::Sum, F64, 2}, {AggSpec::Min, F64, 2}, {AggSpec::Count, F64, 2}, {AggSpec::Max, F64, 2}, {AggSpec::Sum, I64, 3}, {AggSpec::Count, BOOL, 4}};
      static const std::vector<Row> rows = {{Val::i32(1), Val::str("x"), Val::f64(0.5), Val::i64(1), Val::b(false)}, {Val(), Val(), Val(), Val(), Val()}, {Val::i32(INT32_MAX), Val::str(""), Val::f64(-1), Val::i64(INT64_MAX), Val()},
                                            {Val(), Val::str("y"), Val::f64(8), Val(), Val::b(true)}, {Val::i32(-4), Val(), Val(), Val::i64(-3), Val()}, {Val::i32(1), Val::str("x"), Val::f64(0.5), Val::i64(1), Val()}, {Val::i32(0), Val::str("X"), Val::f64(0), Val::i64(0), Val()}};
      int n = c.choose(mc::thorough() ? 5 : 4);
      int k = c.choose(mc::thorough() || n < 3 ? 4 : 3);
      std::vector<AggSpec> list;
      c.choose(1);
      for (int i = 0; i < k; ++i) list.push_back(c.pick(sp));
      Chain ch{ungrouped(list)};
      Driver d(c, ch, rr::encode(ch));
      for (int i = 0; i < n; ++i) d.put(rows[c.choose(7)]);
      d.drain();
      d.put(rows[2]);
      d.drain();
    });
    mc::phase("many-rows", "every row count up to 700 and around the powers of two and ten to 2^17: counts, sums, extremes; every 3rd value NULL or none or all", 2, [](mc::Ctx &c) {
      static const std::vector<int> big = mc::sizes(700, 131073);
      int i = c.choose(700 + (int)big.size());
      int n = i < 700 ? i : big[i - 700];
      int kind = c.choose(3);
      Chain ch{ungrouped({{AggSpec::CountAll, NUL, 0}, {AggSpec::Count, I32, 0}, {AggSpec::Sum, I32, 0}, {AggSpec::Max, I32, 0}, {AggSpec::Min, I32, 0}, {AggSpec::Sum, F64, 1}, {AggSpec::Max, STR, 2}})};
      Real r;
      r.decode(rr::encode(ch));
      RefChain ref(ch);
      Row out;
      for (int k = 0; k < n; ++k) {
        bool null = kind == 1 || (kind == 2 && k % 3 == 1);
        Row row{null ? Val() : Val::i32((int)(k * 2654435761u)), null ? Val() : Val::f64(k % 1000), Val::str(std::to_string(k * 7919 % 1000))};
        ref.put(row, out);
        if (r.put(row, out)) c.fail("an aggregation gave an output while rows are put");
        c.steps();
        if (k % 1000 == 0) c.tick();
      }
      std::vector<Row> want = ref.drain(), got;
      while (r.get(out) == 1) { got.push_back(out); if (got.size() > 5) break; }
      std::string df = diffRows(got, want);
      c.state(mc::mix(n, kind));
      if (!df.empty()) c.fail("aggregates over " + std::to_string(n) + " rows (NULL pattern " + std::to_string(kind) + "): " + df);
    });
    mc::phase("many-aggregates", "every number of aggregates up to 300 and selected to 70000, of kinds and columns in turn: all results, two batches", 1, [](mc::Ctx &c) {
      static const std::vector<int> big = mc::sizes(301, 65537, {70000});
      int i = c.choose(301 + (int)big.size());
      int n = i <= 300 ? i : big[i - 301];
      static const std::vector<AggSpec> sp = {{AggSpec::Sum, I32, 0}, {AggSpec::CountAll, NUL, 0}, {AggSpec::Count, STR, 1}, {AggSpec::Max, I32, 0}, {AggSpec::Min, STR, 1}, {AggSpec::Sum, F64, 2}, {AggSpec::Max, I64, 3}};
      std::vector<AggSpec> list;
      for (int k = 0; k < n; ++k) list.push_back(sp[k % sp.size()]);
      Chain ch{ungrouped(list)};
      Driver d(c, ch, rr::encode(ch));
      for (int b = 0; b < 2; ++b) {
        d.put({Val::i32(3), Val::str("m"), Val(), Val::i64(-1)});
        d.put({Val(), Val::str("z"), Val::f64(0.5), Val()});
        d.put({Val::i32(9 + b), Val(), Val::f64(2), Val::i64(-7)});
        d.drain();
      }
    });
    mc::phase("wide-rows", "each aggregate on each column of rows of up to 300 columns (and those around the powers of two and ten to the 100000th): every column another value", 2, [](mc::Ctx &c) {
      static const std::vector<AggSpec> sp = {{AggSpec::Sum, I32, 0}, {AggSpec::Count, I32, 0}, {AggSpec::Max, I32, 0}, {AggSpec::Min, I32, 0}};
      static const std::vector<int> big = mc::sizes(300, 99999);
      int i = c.choose(300 + (int)big.size());
      int col = i < 300 ? i : big[i - 300];
      int w = i < 300 ? 301 : col < 16390 ? 16390 : 100001;
      AggSpec a = c.pick(sp);
      a.col = col;
      Chain ch{ungrouped({a, {AggSpec::Max, I32, 0}})};
      Driver d(c, ch, rr::encode(ch));
      Row r;
      for (int k = 0; k < w; ++k) r.push_back(Val::i32(k * 1000));
      d.put(r);
      r[col] = Val();
      d.put(r);
      r[col] = Val::i32(-5);
      d.put(r);
      d.drain();
    });
    mc::phase("interleaved", "all histories of up to 8 (thorough: 10) of {put 4 different rows, take a result}", 2, [](mc::Ctx &c) {
      static const std::vector<Row> rows = {{Val::i64(3)}, {Val()}, {Val::i64(-1)}, {Val::i64(INT64_MAX)}};
      Chain ch{ungrouped({{AggSpec::Sum, I64, 0}, {AggSpec::CountAll, NUL, 0}, {AggSpec::Min, I64, 0}})};
      Real r;
      r.decode(rr::encode(ch));
      RefChain ref(ch);
      std::string h;
      int n = mc::thorough() ? 10 : 8;
      for (int i = 0; i < n; ++i) {
        int k = c.choose(5);
        Row out, w;
        if (k < 4) {
          h += " put" + ref::show(rows[k]);
          ref.put(rows[k], w);
          if (r.put(rows[k], out) != 0) c.fail("after" + h + ": output while putting");
        } else {
          h += " get";
          auto want = ref.drain();
          int g = r.get(out);
          if (g != (int)want.size() || (g && !loose(out, want[0]))) c.fail("after" + h + ": " + (g ? ref::show(out) : "nothing") + ", expected " + showRows(want));
        }
        c.steps();
        c.state(ref.hash());
      }
    });
  });
}
