// E02: integer arithmetic.
#include "exprcheck.h"
using namespace ec;

static Dom range(T t, int lo, int hi) {
  Dom d;
  for (int i = lo; i <= hi; ++i) d.push_back(t == I32 ? Val::i32(i) : Val::i64(i));
  return d;
}

int main(int argc, char **argv) {
  return mc::mcMain(argc, argv, [] {
    auto un = opsWhere([](const Op &o) { return starts(o, {"POS", "NEG", "ABS", "ABS_C"}) && (o.ret == I32 || o.ret == I64); });
    auto bin = opsWhere([](const Op &o) { return starts(o, {"ADD", "SUB", "MUL", "DIV", "MOD"}) && (o.ret == I32 || o.ret == I64); });
    auto all = un;
    all.insert(all.end(), bin.begin(), bin.end());
    gridPhase("boundary-nullable", "every integer operator x all operand tuples over the 33 basic boundary values and NULL, all literal/variable forms", all,
              [](const Op &o, size_t i) -> const Dom & { return dom(o.args[i], 1, true); }, {0, 3, 1, 2});
    gridPhase("unary-boundary", "POS, NEG, ABS, ABS_C on every +-2^k+d (d in -2..2) and small values", un,
              [](const Op &o, size_t i) -> const Dom & { return dom(o.args[i], 2); }, {0, 1});
    gridPhase("binary-boundary", "ADD, SUB, MUL, DIV, MOD on all pairs over every +-2^k+d (d in -2..2), small and square-root-of-range values", bin,
              [](const Op &o, size_t i) -> const Dom & { return dom(o.args[i], 2); }, mc::thorough() ? std::vector<unsigned>{0, 1, 2, 3} : std::vector<unsigned>{3});
    int R = mc::thorough() ? 512 : 100;
    static Dom s32, s64;
    s32 = range(I32, -R, R);
    s64 = range(I64, -R, R);
    gridPhase("binary-small", "ADD, SUB, MUL, DIV, MOD on all pairs of integers in [-R, R] (R = 100; thorough: 512)", bin,
              [](const Op &o, size_t i) -> const Dom & { return o.args[i] == I32 ? s32 : s64; }, {3});
    // whole-type sweeps
    static std::vector<const Op *> un32;
    for (auto *o : un) if (o->ret == I32) un32.push_back(o);
    int H = mc::thorough() ? 65536 : 1024;
    mc::phase("unary-i32-sweep", "POS, NEG, ABS, ABS_C on 32-bit integers: thorough all 2^32; quick all values whose upper 16 bits are a multiple of 64", 2, [=](mc::Ctx &c) {
      const Op &o = *un32[c.choose((int)un32.size())];
      uint32_t hi = (uint32_t)c.choose(H) * (65536 / H);
      Sweep s(o);
      for (uint32_t lo = 0; lo < 65536; ++lo) {
        int32_t x = (int32_t)(hi << 16 | lo);
        s.tuple()[0] = expr::Operand(x);
        bool err = false;
        expr::Operand r;
        try { r = s.run(); } catch (const std::exception &) { err = true; }
        Val a = Val::i32(x);
        // wrapped result, computed inline for speed (cross-checked with the reference in the other phases)
        bool wantErr = o.code[0] == 0xB4 && x == INT32_MIN;
        int32_t want = o.code[0] == 0x81 ? x : o.code[0] == 0x82 || x < 0 ? (int32_t)(0u - (uint32_t)x) : x;
        Val v;
        if (err != wantErr || (!err && (!real::readAs(r, I32, v) || v.i != want)))
          c.fail(showCall(o, &a, 1) + " gives " + (err ? "an error" : show(real::fromOperand(r))) + ", expected " + show(o.apply(&a)));
      }
      c.steps(65536);
      c.state(mc::mix(hi, mc::hashStr(o.name)));
      c.exec(65535);
    });
    static std::vector<const Op *> bin32;
    for (auto *o : bin) if (o->ret == I32) bin32.push_back(o);
    static std::vector<int32_t> ys = {-1, 2, -3, 7, 10, 65537, INT32_MAX, INT32_MIN};
    int H2 = mc::thorough() ? 4096 : 128;
    mc::phase("binary-i32-sweep", "each 32-bit binary operator with one operand from 8 special values and the other over all 32-bit integers whose upper 16 bits are a multiple of 16 (quick: 512), both sides", 2, [=](mc::Ctx &c) {
      const Op &o = *bin32[c.choose((int)bin32.size())];
      uint32_t hi = (uint32_t)c.choose(H2) * (65536 / H2);
      int32_t y = c.pick(ys);
      bool swap = c.choose(2);
      Sweep s(o);
      s.tuple()[swap ? 0 : 1] = expr::Operand(y);
      for (uint32_t lo = 0; lo < 65536; ++lo) {
        int32_t x = (int32_t)(hi << 16 | lo);
        s.tuple()[swap ? 1 : 0] = expr::Operand(x);
        expr::Operand r = s.run();
        int64_t p = swap ? y : x, q = swap ? x : y, w = 0;
        bool null = false;
        switch (o.code[0]) {
        case 0x83: w = p + q; break;
        case 0x84: w = p - q; break;
        case 0x85: w = p * q; break;
        case 0x86: if (q) w = p / q; else null = true; break;
        case 0x87: if (q) w = p % q; else null = true; break;
        }
        Val v;
        if (null ? r != nullptr : (!real::readAs(r, I32, v) || v.t != I32 || v.i != (int32_t)(uint32_t)(uint64_t)w)) {
          Val a[2] = {Val::i32((int32_t)p), Val::i32((int32_t)q)};
          c.fail(showCall(o, a, 3) + " gives " + show(real::fromOperand(r)) + ", expected " + show(o.apply(a)));
        }
      }
      c.steps(65536);
      c.state(mc::mix(mc::mix(hi, (uint32_t)y * 2 + swap), mc::hashStr(o.name)));
      c.exec(65535);
    });
  });
}
