// R08: decoding of relational operators.
#include "alloc.h"
#include "reldecode.h"
using namespace rr;

static std::vector<Row> kRows;
static std::vector<Chain> kChains;
static const AggSpec kAll{AggSpec::CountAll, NUL, 0};

static void init() {
  kRows = {{Val::i32(1), Val::i64(2), Val::b(true), Val::f64(1.5), Val::str("a"), Val::f32(2)}, {Val::i32(-1), Val::i64(3), Val::b(false), Val::f64(2.5), Val::str("b"), Val::f32(-1)},
           {Val(), Val(), Val(), Val(), Val(), Val()}, {Val::i32(1), Val::i64(5), Val::b(true), Val::f64(-1), Val::str("a"), Val::f32(4)}};
  auto f = filter(apply2(var(I32, 0), lit(Val::i32(0), I32), "GT<i32>"));
  auto f2 = filter(var(BOOL, 2));
  auto p = project({var(STR, 4), apply2(var(I64, 1), lit(Val::i64(300), I64), "ADD<i64>"), lit(Val::str(std::string("x\0y", 3)), STR), var(F64, 3)});
  auto id = project({var(I32, 0), var(I64, 1), var(BOOL, 2), var(F64, 3), var(STR, 4), var(F32, 5)});
  auto g = grouped({0, 4}, {{AggSpec::Sum, I64, 1}, kAll, {AggSpec::Max, STR, 4}, {AggSpec::Count, BOOL, 2}});
  auto g0 = grouped({}, {});
  auto u = ungrouped({{AggSpec::Min, F64, 3}, kAll, {AggSpec::Sum, I32, 0}, {AggSpec::Max, F32, 5}});
  auto u0 = ungrouped({});
  kChains = {{f}, {f2}, {p}, {g}, {u}, {g0}, {u0}, {project({})}, {f, p}, {id, g}, {f2, id, u}, {g, ungrouped({kAll})}, {u, project({var(I64, 1), var(F64, 0)})}, {id, f, grouped({4}, {kAll}), filter(apply2(var(I64, 1), lit(Val::i64(1), I64), "GT<i64>"))}, {g0, u0, g0}};
  kChains.back() = {u0, project({lit(Val::i32(5), I32)}), ungrouped({{AggSpec::Sum, I32, 0}})};
}

// Decodes; compares acceptance with the reference; runs what is accepted by both.
static void check(mc::Ctx &c, const Bytes &b) {
  RelDecoded d = decodeRel(b);
  c.note("decoding [" + hex(b).substr(0, 600) + "]");
  bool accepted = false, end = false;
  std::string what;
  {
    Code code(b);
    dingodb::rel::RelRunner r;
    al::g_asked = al::g_largest = 0;
    try {
      al::Window w;
      const unsigned char *e = r.Decode(code.data(), code.size());
      accepted = true;
      end = e == code.data() + code.size();
    } catch (const std::exception &e) {
      what = e.what();
    }
  }
  c.steps();
  c.state(mc::hashBytes(b.data(), b.size()));
  c.outcome((uint64_t)d.kind * 2 + accepted);
  if (al::g_asked > 16384 + 1024 * b.size())
    c.fail("decoding the " + std::to_string(b.size()) + " bytes [" + hex(b).substr(0, 400) + "] asked for " + std::to_string(al::g_asked) + " bytes of memory (once for " + std::to_string(al::g_largest) + ")");
  if (accepted && !end) c.fail("decoding [" + hex(b) + "] was accepted but stopped early");
  if (d.kind == RelDecoded::Unspecified) return;
  if (accepted != (d.kind == RelDecoded::Accept))
    c.fail("decoding [" + hex(b) + "] was " + (accepted ? "accepted, although it is not a sequence of documented operators" : "rejected (" + what + "), expected " + show(d.chain)));
  if (!accepted || d.chain.empty()) return;
  if (c.wantSample()) c.sample(hex(b) + " = " + show(d.chain));
  Driver dr(c, d.chain, b);
  try {
    for (auto &r : kRows) dr.put(r);
    dr.drain();
  } catch (RefAny &) {
    // Types or columns do not fit the rows: what happens is not specified.
  }
}

int main(int argc, char **argv) {
  return mc::mcMain(argc, argv, [] {
    init();
    bool th = mc::thorough();
    mc::phase("all-short", "all byte strings of up to 2 bytes, and all of 3 bytes beginning with one of the four operators; accepted ones run on 4 rows", 2, [](mc::Ctx &c) {
      int n = c.choose(4);
      if (n == 0) c.choose(1);
      Bytes b;
      for (int i = 0; i < n; ++i) b.push_back((unsigned char)(n == 3 && i == 0 ? 0x71 + c.choose(4) : c.choose(256)));
      check(c, b);
    });
    mc::phase("alphabet", "all strings of up to 5 (thorough: 6) bytes over 20 structural bytes, behind {nothing, a group array, an aggregation with its end byte, a filter}", 3, [=](mc::Ctx &c) {
      static const std::vector<int> al = {0x00, 0x01, 0x02, 0x03, 0x04, 0x07, 0x10, 0x11, 0x14, 0x22, 0x30, 0x33, 0x45, 0x61, 0x71, 0x72, 0x73, 0x74, 0x80, 0xFF};
      static const std::vector<Bytes> pre = {{}, {0x73, 0x61}, {0x74, 0x01, 0x10, 0x00}, {0x71, 0x13, 0x00}, {0x72, 0x31}, {0x74}};
      Bytes b = c.pick(pre);
      int n = 1 + c.choose(b.empty() ? 4 : th ? 5 : 4);
      for (int i = 0; i < n; ++i) b.push_back((unsigned char)c.pick(al));
      check(c, b);
    });
    mc::phase("aggregate-codes", "every aggregate byte x every following byte, alone, second of two, grouped; also as the last byte", 2, [](mc::Ctx &c) {
      int a = c.choose(256), x = c.choose(257), how = c.choose(3);
      Bytes b = how == 2 ? Bytes{0x73, 0x61, 0x01, 0x00} : Bytes{0x74};
      b[0] = how == 2 ? 0x73 : 0x74;
      if (how == 1) b += Bytes{0x02, 0x10};
      else b.push_back(0x01);
      b.push_back((unsigned char)a);
      if (x < 256) b.push_back((unsigned char)x);
      check(c, b);
    });
    mc::phase("truncated-and-replaced", "15 chains x every truncation, every byte replaced by every value, every byte deleted, every byte inserted from 12 values, every pair of bytes replaced over 12 values", 3, [=](mc::Ctx &c) {
      static const std::vector<int> some = {0x00, 0x01, 0x02, 0x10, 0x17, 0x31, 0x61, 0x71, 0x72, 0x73, 0x74, 0x80};
      const Chain &ch = c.pick(kChains);
      int how = c.choose(5);
      Bytes b = rr::encode(ch);
      size_t i = c.choose((int)b.size());
      if (how == 0) b.resize(i);
      else if (how == 1) b[i] = (unsigned char)c.choose(256);
      else if (how == 2) b.erase(i, 1);
      else if (how == 3) b.insert(b.begin() + i, (unsigned char)c.pick(some));
      else {
        size_t j = c.choose((int)b.size());
        b[i] = (unsigned char)c.pick(some);
        b[j] = (unsigned char)c.pick(some);
      }
      check(c, b);
    });
    mc::phase("end-markers", "all chains of 1..3 operators from 8 x end marker present, missing or doubled after each aggregation and at the end", 2, [](mc::Ctx &c) {
      std::vector<OpSpec> ops = {kChains[0][0], kChains[1][0], kChains[9][0], kChains[3][0], kChains[4][0], kChains[5][0], kChains[6][0], kChains[7][0]};
      int n = 1 + c.choose(3);
      Bytes b;
      for (int i = 0; i < n; ++i) {
        const OpSpec &o = c.pick(ops);
        int marks = o.isAgg() || i == n - 1 ? c.choose(3) : 1;
        b += encodeOp(o, false);
        for (int k = 0; k < marks; ++k) b.push_back(0);
      }
      if (n == 1) c.choose(1);
      check(c, b);
    });
    mc::phase("counts", "element counts of group columns and of aggregates: 0..130 and every power of two +-1 up to 2^64, minimal and padded, against 0..3 and 127..129 elements actually there; string lengths likewise", 2, [](mc::Ctx &c) {
      static std::vector<uint64_t> counts;
      if (counts.empty()) {
        for (int i = 0; i <= 130; ++i) counts.push_back(i);
        for (int k = 8; k < 64; ++k) for (int d = -1; d <= 1; ++d) counts.push_back((1ULL << k) + d);
        counts.push_back(~0ULL);
        counts.push_back(~0ULL - 3);
      }
      uint64_t n = c.pick(counts);
      int have = std::vector<int>{0, 1, 2, 3, 127, 128, 129}[c.choose(7)];
      int kind = c.choose(4);
      int pad = c.choose(3);
      Bytes v;
      putVarint(v, n);
      if (v.size() + pad <= 10)
        for (int i = 0; i < pad; ++i) { v.back() |= 0x80; v.push_back(0); }
      Bytes b;
      if (kind == 0) { b = {0x73, 0x61}; b += v; for (int i = 0; i < have; ++i) b.push_back((unsigned char)(i % 6)); b += Bytes{0x01, 0x10}; }
      else if (kind == 1) { b = {0x73, 0x61, 0x01, 0x00}; b += v; for (int i = 0; i < have; ++i) b.push_back(0x10); }
      else if (kind == 2) { b.push_back(0x74); b += v; for (int i = 0; i < have; ++i) b += Bytes{0x11, 0x00}; }
      else { b = {0x72, 0x17}; b += v; for (int i = 0; i < have; ++i) b.push_back('z'); }
      check(c, b);
    });
    mc::phase("indices", "group and aggregate column indices 0..299 (and padded encodings) over rows of 300 different columns: exactly the encoded column is used", 2, [](mc::Ctx &c) {
      int i = c.choose(300), kind = c.choose(4), pad = c.choose(3);
      static Row wide;
      if (wide.empty()) for (int k = 0; k < 300; ++k) wide.push_back(Val::i64(1000 + k));
      Bytes v;
      putVarint(v, i);
      for (int k = 0; k < pad; ++k) { v.back() |= 0x80; v.push_back(0); }
      Bytes b;
      if (kind == 0) { b = {0x73, 0x61, 0x01}; b += v; b += Bytes{0x01, 0x10}; }
      else if (kind == 1) { b = {0x73, 0x61, 0x02, 0x05}; b += v; b += Bytes{0x01, 0x10}; }
      else if (kind == 2) { b = {0x74, 0x01, 0x22}; b += v; }
      else { b = {0x74, 0x02, 0x42}; b += v; b += Bytes{0x32}; b += v; }
      RelDecoded d = decodeRel(b);
      if (d.kind != RelDecoded::Accept) c.internal("not accepted by the reference: %s", hex(b).c_str());
      Driver dr(c, d.chain, b);
      dr.put(wide);
      dr.put(wide);
      dr.drain();
    });
    mc::phase("re-decoding", "all ordered triples of 15 chains or 4 failing codes decoded into one runner, with 0, 1 or 4 rows put and 0 or 1 results taken in between: the last one behaves as in a fresh runner", 3, [=](mc::Ctx &c) {
      static const std::vector<Bytes> bad = {{0x71, 0xFF}, {0x73, 0x61, 0x02, 0x01}, {0x74, 0x01, 0x10, 0x00, 0x75}, {0x72, 0x11, 0x01, 0x00, 0x71, 0x11}};
      Real r;
      std::string past;
      int n = 2;
      for (int k = 0; k < n; ++k) {
        int i = c.choose((int)(kChains.size() + bad.size()));
        if (i < (int)kChains.size()) {
          past += " decode " + show(kChains[i]);
          r.decode(rr::encode(kChains[i]));
          int rows = std::vector<int>{0, 1, 4}[c.choose(3)];
          Row out;
          for (int q = 0; q < rows; ++q) r.put(kRows[q], out);
          past += " put " + std::to_string(rows) + " rows";
          if (c.choose(2)) { past += " get"; r.get(out); }
        } else {
          past += " decode [" + hex(bad[i - kChains.size()]) + "]";
          try {
            r.decode(bad[i - kChains.size()]);
            c.fail("decoding [" + hex(bad[i - kChains.size()]) + "] was accepted");
          } catch (const std::exception &) {
          }
        }
        c.note(past);
      }
      const Chain &ch = c.pick(kChains);
      if (c.pos < 3) c.choose(1);
      Driver d(c, ch, rr::encode(ch), std::move(r), past);
      for (auto &x : kRows) d.put(x);
      d.drain();
    });
    mc::phase("late", "chains of n = 1..70 operators and of numbers around the powers of two and ten to 4096, of 4 kinds (with and without end markers), or one operator of n columns, aggregates or expressions, followed by each of 20 endings: unknown operators, truncated ones, unsupported aggregates, doubled end markers, valid operators", 2, [](mc::Ctx &c) {
      static const std::vector<int> big = mc::sizes(71, 4097);
      static const std::vector<Bytes> tails = {{}, {0x00}, {0x00, 0x00}, {0x70}, {0x75}, {0xFF}, {0x71}, {0x71, 0x31, 0x02, 0x00}, {0x71, 0x31, 0x02}, {0x71, 0xFF}, {0x72}, {0x72, 0x31}, {0x73}, {0x73, 0x61}, {0x73, 0x61, 0x01},
                                               {0x73, 0x62, 0x01, 0x00, 0x01, 0x10}, {0x73, 0x61, 0x01, 0x00, 0x01}, {0x74, 0x01, 0x10, 0x00}, {0x74, 0x02, 0x10}, {0x74, 0x01, 0x1F}};
      int kind = c.choose(7);
      int i = c.choose(70 + (int)big.size());
      int n = i < 70 ? i + 1 : big[i - 70];
      Bytes b;
      const OpSpec id = kChains[9][0];
      if (kind == 0) for (int k = 0; k < n; ++k) b += encodeOp(kChains[1][0], true);
      else if (kind == 1) for (int k = 0; k < n; ++k) b += encodeOp(id, true);
      else if (kind == 2) for (int k = 0; k < n; ++k) b += encodeOp(k == 0 ? kChains[4][0] : grouped({1}, {kAll, {AggSpec::Count, I64, 0}}), k % 2);
      else if (kind == 3) for (int k = 0; k < n; ++k) b += encodeOp(k % 2 ? id : kChains[1][0], true);
      else if (kind == 4) { std::vector<AggSpec> a; for (int k = 0; k < n; ++k) a.push_back(k % 2 ? kAll : AggSpec{AggSpec::Sum, I64, 1}); b = encodeOp(ungrouped(a), false); }
      else if (kind == 5) { std::vector<int> g; for (int k = 0; k < n; ++k) g.push_back(k % 6); b = encodeOp(grouped(g, {kAll}), false); }
      else { std::vector<Prog> e; for (int k = 0; k < n; ++k) e.push_back(k % 2 ? var(STR, 4) : lit(Val::str("abc"), STR)); b = encodeOp(project(e), true); }
      check(c, b + c.pick(tails));
    });
    mc::phase("long-codes", "chains of up to 400 operators and single operators of up to 2000 columns or aggregates: accepted, with memory in proportion", 2, [=](mc::Ctx &c) {
      int n = (c.choose(40) + 1) * (th ? 50 : 10), kind = c.choose(4);
      Bytes b;
      if (kind == 0) { for (int i = 0; i < n; ++i) b += encodeOp(kChains[0][0], true); }
      else if (kind == 1) { std::vector<AggSpec> a; for (int i = 0; i < n; ++i) a.push_back(i % 2 ? kAll : AggSpec{AggSpec::Sum, I64, 1}); b = encodeOp(ungrouped(a), true); }
      else if (kind == 2) { std::vector<int> k; for (int i = 0; i < n; ++i) k.push_back(i % 6); b = encodeOp(grouped(k, {kAll}), true); }
      else { std::vector<Prog> k; for (int i = 0; i < n; ++i) k.push_back(i % 2 ? var(STR, 4) : lit(Val::str("abc"), STR)); b = encodeOp(project(k), true); }
      check(c, b);
    });
  });
}
