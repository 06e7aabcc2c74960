// R07: rows whose evaluation raises.
#include "pool.h"
#include "relref.h"
using namespace rr;

static const AggSpec kAll{AggSpec::CountAll, NUL, 0};
static std::vector<Row> kRows;
static std::vector<Chain> kChains;

static void init() {
  auto row = [](int64_t a, double b, const Val &s) { return Row{Val::i64(a), Val::f64(b), s}; };
  kRows = {row(1, 2, Val::str("5")), row(1, 1e300, Val::str("6")),               // the second raises in the casts of $1
           row(2, -3, Val::str("99999999999")),                                   // raises in the casts of $2
           row(INT64_MIN, 4, Val::str("7")),                                      // raises in ABS_C of $0
           {Val(), Val(), Val()}, row(2, 8, Val::str("-4")),
           {Val::str("zz"), Val::f64(1), Val::str("8")}};                         // not the declared type: raises in every expression reading $0
  auto v0 = var(I64, 0);
  auto chk = apply1(var(F64, 1), "CAST_C<i32,f64>");
  auto num = apply1(var(STR, 2), "CAST<i32,str>");
  auto abs = apply1(v0, "ABS_C<i64>");
  auto plus = apply2(v0, lit(Val::i64(10), I64), "ADD<i64>");
  auto fChk = filter(apply2(chk, lit(Val::i32(0), I32), "GE<i32>"));
  auto fNum = filter(apply2(num, lit(Val::i32(0), I32), "GT<i32>"));
  auto fAbs = filter(apply2(lit(Val::i64(100), I64), abs, "GT<i64>"));
  auto fAnd = filter(apply2(apply2(plus, lit(Val::i64(0), I64), "GT<i64>"), apply2(chk, lit(Val::i32(0), I32), "GT<i32>"), "AND"));
  auto pFirst = project({chk, plus, var(STR, 2)});
  auto pMid = project({plus, num, var(F64, 1)});
  auto pLast = project({var(STR, 2), plus, abs});
  auto keep = project({plus, var(F64, 1), var(STR, 2)});
  auto g0 = grouped({0}, {{AggSpec::Sum, F64, 1}, kAll});                          // (key, sum, n)
  auto u0 = ungrouped({{AggSpec::Max, I64, 0}, {AggSpec::Sum, F64, 1}, kAll});
  auto gS = grouped({2}, {{AggSpec::Sum, F64, 1}, {AggSpec::Max, F64, 1}});        // (str, sum, max)
  // after aggregation: raise for some results only
  auto aChk = project({var(I64, 0), apply1(var(F64, 1), "CAST_C<i32,f64>")});
  auto aFil = filter(apply2(apply1(var(F64, 1), "CAST_C<i32,f64>"), lit(Val::i32(3), I32), "LT<i32>"));
  auto aNum = project({apply1(var(STR, 0), "CAST<i32,str>"), var(F64, 1)});
  auto cnt = ungrouped({kAll});
  auto pGrp = grouped({0}, {kAll, {AggSpec::Sum, I64, 1}});
  kChains = {{fChk}, {fNum}, {fAbs}, {fAnd}, {pFirst}, {pMid}, {pLast},
             {fChk, keep, fNum}, {keep, g0}, {fNum, keep, g0}, {fChk, keep, u0}, {keep, u0, aChk}, {keep, g0, aChk}, {keep, g0, aFil}, {keep, g0, aChk, cnt}, {gS, aNum}, {gS, aNum, cnt}, {pFirst, pGrp}, {keep, g0, aFil, u0, aChk}};
}

int main(int argc, char **argv) {
  return mc::mcMain(argc, argv, [] {
    init();
    bool th = mc::thorough();
    mc::phase("sequences", "19 chains (raising at the first or only operator, in the first, middle or last expression of a projection, before or after an aggregation, while results are taken) x all sequences of up to 5 (thorough: 6) rows from 7, 4 of which raise in one or the other place; drained, then two more batches", 3, [=](mc::Ctx &c) {
      const Chain &ch = c.pick(kChains);
      int n = c.choose(th ? 7 : 6);
      bool wrongType = true;
      for (auto &o : ch) { if (&o == &ch[0] && o.isAgg()) wrongType = false; }
      Driver d(c, ch, rr::encode(ch));
      c.choose(1);
      std::vector<int> rows;
      for (int i = 0; i < n; ++i) rows.push_back(c.choose(wrongType ? 7 : 6));
      auto put = [&](int i) {
        try {
          d.put(kRows[i]);
        } catch (RefAny &) {  // not reached before the library is called with well-typed rows
          c.internal("unspecified row");
        }
      };
      for (int i : rows) put(i);
      d.drain();
      put(0);
      put(1);
      put(5);
      d.drain();
      put(5);
      d.drain();
      if (c.wantSample()) c.sample(d.text());
    });
    mc::phase("as-if-never-put", "19 chains x every sequence of up to 4 (thorough: 5) rows: a second runner given only the rows which did not raise delivers the same", 3, [=](mc::Ctx &c) {
      const Chain &ch = c.pick(kChains);
      int n = c.choose(th ? 6 : 5);
      bool wrongType = !ch[0].isAgg();
      c.choose(1);
      Real a, b;
      Bytes code = rr::encode(ch);
      a.decode(code);
      b.decode(code);
      std::string h;
      for (int i = 0; i < n; ++i) {
        const Row &r = kRows[c.choose(wrongType ? 7 : 6)];
        h += " put" + ref::show(r);
        Row x, y;
        int k = a.put(r, x);
        c.steps();
        if (k == 2) continue;
        int q = b.put(r, y);
        if (q != k || (k == 1 && !same(x, y))) c.fail(show(ch) + " after" + h + ": " + ref::show(x) + ", but " + ref::show(y) + " without the rows that raised");
      }
      std::vector<Row> x, y;
      int ex = 0, ey = 0;
      for (int i = 0; i < 40; ++i) { Row r; int k = a.get(r); if (k == 0) break; if (k == 2) ++ex; else x.push_back(r); }
      for (int i = 0; i < 40; ++i) { Row r; int k = b.get(r); if (k == 0) break; if (k == 2) ++ey; else y.push_back(r); }
      std::string df = diffRows(x, y);
      c.state(mc::hashStr(h, mc::hashStr(show(ch))));
      if (!df.empty() || ex != ey) c.fail(show(ch) + " after" + h + ": " + df + " (" + std::to_string(ex) + " and " + std::to_string(ey) + " errors): compared with the same rows without those that raised");
    });
    mc::phase("many-errors", "19 chains x 5 patterns of up to 70000 rows of which each second, third, all but one in 100... raise: the others are unaffected", 2, [=](mc::Ctx &c) {
      const Chain &ch = c.pick(kChains);
      int pat = c.choose(5);
      Driver d(c, ch, rr::encode(ch));
      int n = th || pat == 2 ? 70000 : 400;
      for (int i = 0; i < n; ++i) {
        bool bad = pat == 0 ? i % 2 : pat == 1 ? i % 3 == 0 : pat == 2 ? i % 100 != 99 : pat == 3 ? i % 100 == 50 : i < n / 2;
        d.put(kRows[bad ? 1 + i % 3 : i % 5 ? 5 : 0]);
        if ((i & 255) == 0) c.tick();
      }
      d.drain();
      d.put(kRows[0]);
      d.drain();
    });
  });
}
