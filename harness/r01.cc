// R01: filters.
#include "pool.h"
#include "relref.h"
using namespace rr;

static std::vector<Prog> g_preds;
static std::vector<Row> g_rows;

int main(int argc, char **argv) {
  return mc::mcMain(argc, argv, [] {
    // columns: i32, str, bool, f64
    for (auto &a : {Val(), Val::i32(-1), Val::i32(0), Val::i32(5)})
      for (auto &s : {Val(), Val::str(""), Val::str("m")})
        for (auto &b : {Val(), Val::b(false), Val::b(true)}) g_rows.push_back({a, s, b, a.isNull() ? Val::f64(0.5) : Val::f64(NAN)});
    g_preds = {
        lit(Val::b(true), BOOL), lit(Val::b(false), BOOL), lit(Val(), BOOL), var(BOOL, 2), apply1(var(BOOL, 2), "NOT"),
        apply2(var(I32, 0), lit(Val::i32(0), I32), "GT<i32>"), apply2(var(I32, 0), lit(Val::i32(0), I32), "NE<i32>"), apply2(var(STR, 1), lit(Val::str("m"), STR), "EQ<str>"),
        apply2(var(STR, 1), lit(Val::str("m"), STR), "LT<str>"), apply1(var(I32, 0), "IS_NULL<i32>"), apply1(var(BOOL, 2), "IS_TRUE<bool>"), apply1(var(BOOL, 2), "IS_FALSE<bool>"),
        apply2(apply2(var(I32, 0), lit(Val::i32(0), I32), "GE<i32>"), var(BOOL, 2), "AND"), apply2(apply2(var(I32, 0), lit(Val::i32(0), I32), "LT<i32>"), var(BOOL, 2), "OR"),
        apply2(var(F64, 3), lit(Val::f64(1), F64), "LT<f64>"), apply2(var(F64, 3), var(F64, 3), "EQ<f64>"), apply1(var(I32, 0), "CAST<bool,i32>"),
        apply2(apply2(lit(Val::i32(10), I32), var(I32, 0), "DIV<i32>"), lit(Val::i32(2), I32), "EQ<i32>"), apply2(apply2(var(STR, 1), var(STR, 1), "CONCAT"), lit(Val::str("mm"), STR), "EQ<str>"),
        apply1(apply1(var(BOOL, 2), "NOT"), "IS_NULL<bool>"),
    };
    // two expressions: the last one decides
    { Prog p = lit(Val::b(false), BOOL); p.push_back(iVar(BOOL, 2)); g_preds.push_back(p); }
    mc::phase("sequences", "20 predicates (every literal, comparisons, logic, truth tests, casts, division by zero, string operators, NaN) x all sequences of up to 3 (thorough: 4) rows over 36 rows (NULLs in every column), with and without end marker", 3, [](mc::Ctx &c) {
      const Prog &p = c.pick(g_preds);
      int n = 1 + c.choose(mc::thorough() ? 4 : 3);
      bool eoe = c.choose(2);
      Chain ch{filter(p)};
      Driver d(c, ch, rr::encode(ch, true, eoe));
      for (int i = 0; i < n; ++i) d.put(g_rows[c.choose((int)g_rows.size())]);
      d.drain();
      if (c.wantSample()) c.sample(d.text());
    });
    mc::phase("identity", "the row that comes out has all columns and values of the row put in, for rows of 0..40 columns, and of numbers around the powers of two to 2^14, of all types and boundary values; 50 (thorough: 500; wide ones: 2) rows in a row", 2, [](mc::Ctx &c) {
      static const std::vector<int> big = mc::sizes(41, 16385);
      int width = c.choose(41 + (int)big.size());
      const bool wide = width > 40;
      if (wide) width = big[width - 41];
      int k = c.choose(8);
      Row base;
      for (int i = 0; i < width; ++i) {
        const Dom &dm = dom(kTypes[(i + k) % 6], 1, true);
        base.push_back(dm[(i * 7 + k * 3) % dm.size()]);
      }
      Chain ch{filter(lit(Val::b(k % 4 != 3), BOOL))};
      Driver d(c, ch, rr::encode(ch));
      for (int i = 0; i < (wide ? 2 : mc::thorough() ? 500 : 50); ++i) {
        Row r = base;
        if (width) r[i % width] = Val::i32(i);
        d.put(r);
      }
    });
    mc::phase("same-object", "the row object that passed is changed and put again, and rows that follow one another in the same memory: all sequences of 4 (thorough: 7) contents from 6 by 4 predicates; each time the current content decides", 3, [](mc::Ctx &c) {
      static const std::vector<int> ps = {3, 5, 7, 18};
      const Prog &p = g_preds[c.pick(ps)];
      Chain ch{filter(p)};
      Real r;
      r.decode(rr::encode(ch));
      std::string h = show(ch);
      expr::Tuple *mine = nullptr;
      for (int i = 0; i < (mc::thorough() ? 7 : 4); ++i) {
        static const std::vector<int> some = {0, 8, 20, 26, 35, 17};
        const Row &row = g_rows[c.pick(some)];
        if (mine) *mine = real::toTuple(row);
        else mine = new expr::Tuple(real::toTuple(row));
        h += (h.empty() ? "" : " put") + ref::show(row);
        RefChain one(ch);
        Row out;
        bool want = one.put(row, out);
        const expr::Tuple *o = r.runner()->Put(mine);
        c.steps();
        c.state(mc::hashStr(h));
        if (want != (o != nullptr)) c.fail(h + ": the row " + (want ? "was dropped" : "passed"));
        mine = const_cast<expr::Tuple *>(o);
        if (mine && !same(real::fromTuple(*mine, &row), row)) c.fail(h + ": the row that passed is " + ref::show(real::fromTuple(*mine)));
      }
      delete mine;
    });
    mc::phase("long", "5 predicates x 4 patterns of 70000 (thorough: 2000000) rows: runs of passing and of dropped rows of every length 1, 2, 3..., and single exceptions", 2, [](mc::Ctx &c) {
      static const std::vector<int> ps = {3, 5, 7, 16, 18};
      const Prog &p = g_preds[c.pick(ps)];
      int pat = c.choose(4);
      int n = mc::thorough() ? 2000000 : 70000;
      Chain ch{filter(p)};
      Driver d(c, ch, rr::encode(ch));
      int run = 0, len = 1;
      for (int i = 0; i < n; ++i) {
        if (++run > len) { run = 0; ++len; }
        bool a = pat == 0 ? len & 1 : pat == 1 ? i % 32768 == 32767 : pat == 2 ? i % 257 != 0 : (i >> 8) & 1;
        // the one passes some predicates the other does not
        d.put(a ? g_rows[35] : g_rows[(i % 3) * 9 + 4]);
        if ((i & 1023) == 0) c.tick();
      }
      d.drain();
    });
    mc::phase("two-filters", "every pair of predicates as consecutive filters on every row: both must hold", 2, [](mc::Ctx &c) {
      Chain ch{filter(c.pick(g_preds)), filter(c.pick(g_preds))};
      Driver d(c, ch, rr::encode(ch));
      for (auto &r : g_rows) d.put(r);
      d.drain();
    });
  });
}
