// E11: every byte string is decoded as documented or rejected safely.
#include "exprcheck.h"
#include "refdecode.h"
using namespace ec;

static Row g_row;
static expr::Tuple g_tuple;

static void one(mc::Ctx &c, const Bytes &b) {
  Decoded want = decode(b);
  Code code(b);
  expr::Runner r;
  c.note("decoding [" + hex(b) + "]");
  bool rejected = false;
  const unsigned char *e = nullptr;
  try {
    e = r.Decode(code.data(), code.size());
  } catch (const std::exception &) {
    rejected = true;
  }
  c.steps();
  c.outcome(mc::mix(want.kind, rejected));
  if (want.kind == Decoded::Accept && rejected) c.fail("[" + hex(b) + "] is rejected, but it is " + show(want.prog));
  if (want.kind == Decoded::Reject && !rejected) c.fail("[" + hex(b) + "] is accepted, expected an error");
  if (want.kind == Decoded::Accept && e != code.data() + want.used) c.fail("[" + hex(b) + "]: decoding returns position " + std::to_string(e - code.data()) + ", expected " + std::to_string(want.used));
  bool runnable = !rejected && !want.negVar && want.maxVar < (int64_t)g_row.size() && !b.empty();
  if (runnable) {
    // first without a tuple: a variable must raise
    c.note("running [" + hex(b) + "]");
    r.BindTuple(&g_tuple);
    Result res = real::run(r);
    c.steps();
    if (want.kind == Decoded::Accept) {
      Eval ev = runChecked(want.prog, g_row);
      c.state(ev.kind == Out::Value ? hashRow(ev.stack) : mc::mix(ev.kind, b.size()));
      c.outcome(mc::mix(77, ev.kind));
      if (ev.kind == Out::Error && !res.error) c.fail("[" + hex(b) + "] " + show(want.prog) + " gives " + real::show(res) + ", expected an error");
      if (ev.kind == Out::Value) {
        Out o = Out::of(ev.stack.back());
        o.ulp = ev.ulp * 4;
        if (!real::agrees(res, o)) c.fail("[" + hex(b) + "] " + show(want.prog) + " gives " + real::show(res) + ", expected " + show(o));
      }
      if (want.maxVar >= 0) {
        r.BindTuple(nullptr);
        bool first = true, raised = false;
        try { r.Run(); } catch (const std::exception &) { raised = true; }
        (void)first;
        if (!raised) c.fail("[" + hex(b) + "] reads a variable although no tuple is bound");
      }
    }
  }
  // whatever happened, the evaluator can be reused
  static const unsigned char ok[] = {0x11, 0x07, 0x21, 0x03, 0x83, 0x01};
  c.note("reusing the evaluator after [" + hex(b) + "]");
  Result again;
  try {
    r.Decode(ok, sizeof ok);
    again = real::run(r);
  } catch (const std::exception &x) {
    c.fail("after [" + hex(b) + "] a valid expression is rejected: " + x.what());
  }
  std::unique_ptr<expr::Tuple> all(r.GetAll());
  if (!real::agrees(again, Out::of(Val::i32(4))) || all->size() != 1) c.fail("after [" + hex(b) + "] 7 + -3 gives " + real::show(again) + " with " + std::to_string(all->size()) + " results");
  if (c.wantSample()) c.sample(hex(b) + (rejected ? " rejected" : " accepted"));
}

// Valid programs: every operator on literals and on variables, every kind of literal.
static std::vector<Bytes> g_corpus;
static void makeCorpus() {
  for (auto &o : ops()) {
    Val a[3];
    Row t;
    for (size_t i = 0; i < o.args.size(); ++i) a[i] = dom(o.args[i], 0)[1];
    g_corpus.push_back(codeOf(o, a, 0, t));
  }
  for (T t : kTypes) {
    for (auto &v : dom(t, 0)) g_corpus.push_back(encConst(v));
    g_corpus.push_back(encNull(t));
    g_corpus.push_back(encVar(t, 1));
  }
  g_corpus.push_back(encConst(Val::i64(1LL << 40)));
  g_corpus.push_back(encConst(Val::str("hello, world, this is a longer string")));
  g_corpus.push_back(encVar(I32, 300));
  Bytes b = encVar(I32, 0) + encConst(Val::i32(200)) + op("ADD<i32>").code + encConst(Val::f64(1.5)) + op("CAST<f64,i32>").code;
  b = encVar(I32, 0) + encConst(Val::i32(200)) + op("ADD<i32>").code + op("CAST<f64,i32>").code + encConst(Val::f64(1.5)) + op("LT<f64>").code + op("NOT").code;
  g_corpus.push_back(b);
  b.push_back(0);
  g_corpus.push_back(b + b);
}

int main(int argc, char **argv) {
  return mc::mcMain(argc, argv, [] {
    g_row = {Val::i32(3), Val::str("v"), Val::f64(2.5), Val(), Val::b(true), Val::i64(-8), Val::f32(0.5f)};
    for (int i = 7; i < 130; ++i) g_row.push_back(i % 2 ? Val::i32(i) : Val::str(std::to_string(i)));
    g_tuple = real::toTuple(g_row);
    makeCorpus();
    mc::phase("short", "all byte strings of length 0, 1 and 2, and of length 3 (quick: last byte from 40 values; thorough: all)", 2, [](mc::Ctx &c) {
      int n = c.choose(4);
      Bytes b;
      static const std::vector<int> some = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x0f, 0x10, 0x11, 0x13, 0x17, 0x1f, 0x20, 0x21, 0x26, 0x27, 0x2f, 0x31, 0x35, 0x36, 0x41, 0x51, 0x52, 0x53, 0x54, 0x61, 0x70, 0x71, 0x7f, 0x80, 0x81, 0x83, 0xa1, 0xf0, 0xf1, 0xff};
      if (n == 0) c.choose(1);
      for (int i = 0; i < n; ++i) b.push_back((unsigned char)(i == 2 && !mc::thorough() ? some[c.choose((int)some.size())] : c.choose(256)));
      one(c, b);
    });
    mc::phase("two-byte-operators-in-context", "all 32768 two-byte operators on a stack of three operands, for operand stacks of each type and of mixed types", 2, [](mc::Ctx &c) {
      static const std::vector<std::vector<Val>> stacks = {
          {Val::i32(5), Val::i32(3), Val::i32(2)}, {Val::i64(5), Val::i64(3), Val::i64(2)}, {Val::b(true), Val::b(false), Val::b(true)}, {Val::f32(1), Val::f32(2), Val::f32(3)},
          {Val::f64(1), Val::f64(2), Val::f64(3)}, {Val::str("a"), Val::str("bc"), Val::str("d")}, {Val::str("abc"), Val::i32(1), Val::i32(2)}, {Val::i32(1), Val::str("abc"), Val::i32(2)},
          {Val::str("x"), Val(), Val::f32(1)}, {Val::i64(1), Val::i32(1), Val::f64(1)}};
      auto &s = c.pick(stacks);
      int op1 = 0x80 + c.choose(128), op2 = c.choose(256);
      Bytes b;
      for (auto &v : s) b += encLit(v, STR);
      b.push_back((unsigned char)op1);
      b.push_back((unsigned char)op2);
      one(c, b);
    });
    mc::phase("truncations", "every prefix of every program of the corpus (every operator on literals, every literal, longer programs)", 2, [](mc::Ctx &c) {
      const Bytes &b = c.pick(g_corpus);
      int n = c.choose((int)b.size() + 1);
      one(c, b.substr(0, n));
    });
    mc::phase("substitutions", "every single byte of every corpus program replaced by every value", 2, [](mc::Ctx &c) {
      Bytes b = c.pick(g_corpus);
      int p = c.choose((int)b.size());
      b[p] = (unsigned char)c.choose(256);
      one(c, b);
    });
    mc::phase("insertions-deletions", "every corpus program with one byte removed, or one byte inserted anywhere (quick: 44 values; thorough: 256)", 2, [](mc::Ctx &c) {
      Bytes b = c.pick(g_corpus);
      int p = c.choose((int)b.size() + 1);
      int k = c.choose(mc::thorough() ? 257 : 45);
      if (k == 0) {
        if (p < (int)b.size()) b.erase(p, 1);
      } else {
        b.insert(b.begin() + p, (unsigned char)(mc::thorough() ? k - 1 : k <= 32 ? (k - 1) * 8 : k <= 40 ? k - 32 : 0xF0 + k - 41));
      }
      one(c, b);
    });
    mc::phase("concatenations", "all pairs of corpus programs, the second truncated at every length", 2, [](mc::Ctx &c) {
      const Bytes &a = c.pick(g_corpus);
      const Bytes &b = c.pick(g_corpus);
      if (!mc::thorough() && (a.size() > 7 || b.size() > 7)) return;
      int n = c.choose((int)b.size() + 1);
      one(c, a + b.substr(0, n));
    });
    mc::phase("lengths", "strings announcing every length 2^k+d (also negative and beyond 32 bits) with 0..3 or exactly that many (if small) bytes present", 2, [](mc::Ctx &c) {
      const Dom &d = dom(I64, 2);
      uint64_t n = (uint64_t)c.pick(d).i;
      int have = c.choose(5);
      Bytes b(1, 0x17);
      putVarint(b, n);
      size_t k = have < 4 ? have : n <= 5000 ? n : 0;
      b += Bytes(k, 'z');
      one(c, b);
    });
    mc::phase("long-varints", "varints of 1..40 continuation bytes (each value of 5), ended or not, for every operator that takes one", 2, [](mc::Ctx &c) {
      static const std::vector<int> ops1 = {0x11, 0x12, 0x21, 0x22, 0x17, 0x31, 0x32, 0x33, 0x34, 0x35, 0x37};
      int o = c.pick(ops1);
      int n = c.choose(41);
      int v = std::vector<int>{0x80, 0x81, 0xff, 0xc0, 0xbf}[c.choose(5)];
      int e = c.choose(4);
      Bytes b(1, (unsigned char)o);
      b += Bytes(n, (unsigned char)v);
      if (e) b.push_back(e == 1 ? 0x00 : e == 2 ? 0x01 : 0x7f);
      one(c, b);
    });
    mc::phase("late", "programs of n = 1..70 items and of numbers around the powers of two and ten to 4096, of 5 kinds, followed by each of 30 endings: unknown, unsupported or truncated items, operators that lack an operand only there, operands of the wrong type, end markers and more, valid items", 2, [](mc::Ctx &c) {
      static const std::vector<int> big = mc::sizes(71, 4097);
      static const std::vector<Bytes> tails = {
          {}, {0xFF}, {0x1F}, {0x10}, {0x11}, {0x11, 0x80}, {0x14, 0x3F}, {0x15, 0x3F, 0xF0}, {0x17, 0x03, 'a', 'b'}, {0x17}, {0x16, 0x01, 0x30}, {0x36, 0x00}, {0x31}, {0x31, 0xFF},
          {0x83}, {0x83, 0x00}, {0x83, 0x06}, {0x83, 0x07}, {0x84, 0x07}, {0x83, 0x08}, {0x83, 0xFF}, {0xF1}, {0xF1, 0x00}, {0xF1, 0x36}, {0xF1, 0xFF}, {0xF0, 0x08}, {0xF0, 0xFF}, {0x00}, {0x00, 0xFF}, {0x11, 0x07, 0x83, 0x01}};
      int kind = c.choose(6);
      int i = c.choose(70 + (int)big.size());
      int n = i < 70 ? i + 1 : big[i - 70];
      Bytes b;
      if (kind == 0) for (int k = 0; k < n; ++k) b += encConst(Val::i32(k));
      else if (kind == 1) { b = encConst(Val::i32(1)); for (int k = 0; k < n; ++k) b += encConst(Val::i32(k)) + op("ADD<i32>").code; }
      else if (kind == 2) for (int k = 0; k < n; ++k) b += k % 2 ? encVar(STR, 1) : encConst(Val::str("text"));
      else if (kind == 3) { for (int k = 0; k < n; ++k) b += encConst(Val::i32(k)); for (int k = 0; k < n; ++k) b += op("ADD<i32>").code; }        // the last one lacks an operand
      else if (kind == 4) { for (int k = 0; k < n; ++k) b += k == 0 ? encConst(Val::str("x")) : encConst(Val::i32(k)); for (int k = 1; k < n; ++k) b += op("ADD<i32>").code; }  // the last one gets a string
      else { b = encConst(Val::f64(2)); for (int k = 0; k < n; ++k) b += op(k % 2 ? "NEG<f64>" : "FLOOR").code; }
      one(c, b + c.pick(tails));
    });
    if (mc::thorough())
      mc::phase("double-substitutions", "every pair of bytes of every corpus program of up to 6 bytes replaced by every pair of 64 values", 3, [](mc::Ctx &c) {
        Bytes b = c.pick(g_corpus);
        if (b.size() > 6 || b.size() < 2) { c.choose(1); c.choose(1); return; }
        int p = c.choose((int)b.size());
        int q = c.choose((int)b.size());
        if (q <= p) return;
        auto val = [](int k) { return (unsigned char)(k < 24 ? k : k < 40 ? (k - 24) * 16 + 1 : k < 56 ? (k - 40) * 16 + 7 : 0xF0 + k - 56); };
        b[p] = val(c.choose(64));
        b[q] = val(c.choose(64));
        one(c, b);
      });
  });
}
