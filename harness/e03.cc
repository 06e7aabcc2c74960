// E03: floating-point arithmetic and mathematical functions.
#include "exprcheck.h"
using namespace ec;

int main(int argc, char **argv) {
  return mc::mcMain(argc, argv, [] {
    auto isReal = [](const Op &o) { return o.ret == F32 || o.ret == F64; };
    auto un = opsWhere([=](const Op &o) { return starts(o, {"POS", "NEG", "ABS", "ABS_C"}) && isReal(o); });
    auto bin = opsWhere([=](const Op &o) { return starts(o, {"ADD", "SUB", "MUL", "DIV"}) && isReal(o); });
    static std::vector<const Op *> fun;
    fun = opsWhere([=](const Op &o) { return o.code[0] == 0xF1 && o.ret == F64; });
    auto all = un;
    all.insert(all.end(), bin.begin(), bin.end());
    all.insert(all.end(), fun.begin(), fun.end());
    gridPhase("boundary-nullable", "every real operator and mathematical function x all operand tuples over the boundary values (signed zeros, infinities, NaN, subnormals, limits, halves) and NULL, all literal/variable forms", all,
              [](const Op &o, size_t i) -> const Dom & { return dom(o.args[i], 1, true); }, {0, 3, 1, 2});
    gridPhase("unary-exponents", "unary operators and functions over +-2^k and 1.5*2^k for the exponents of the type, neighbours of 2^28..2^34 and quarters in [-10, 10]", [&] { auto v = un; v.insert(v.end(), fun.begin(), fun.end()); return v; }(),
              [](const Op &o, size_t i) -> const Dom & { return dom(o.args[i], 2); }, {0, 1});
    gridPhase("binary-exponents", "ADD, SUB, MUL, DIV on all pairs of the same values", bin,
              [](const Op &o, size_t i) -> const Dom & { return dom(o.args[i], 2); }, {3});
    // Functions over a dense grid: every double with the given number of leading mantissa bits.
    static std::vector<const Op *> sw;
    sw = fun;
    for (auto *o : un) sw.push_back(o);
    int M = mc::thorough() ? 13 : 9;
    mc::phase("unary-mantissa-grid", "functions and unary operators on every value (all signs and exponents, subnormals, infinities, NaNs) whose mantissa has 9 leading bits (thorough: 13) of any value and the others zero, all one, or alternating", 3, [=](mc::Ctx &c) {
      const Op &o = *sw[c.choose((int)sw.size())];
      bool sg = o.ret == F32;
      int eb = sg ? 9 : 12, mb = sg ? 23 : 52;
      uint64_t top = (uint64_t)c.choose(1 << eb);
      int low = c.choose(3);
      static const uint64_t pat[3] = {0, ~0ull, 0x5555555555555555ull};
      int m = M > mb ? mb : M;
      Sweep s(o);
      for (uint64_t k = 0; k < (1ull << m); ++k) {
        uint64_t u = top << mb | k << (mb - m) | (pat[low] & ((1ull << (mb - m)) - 1));
        Val a = sg ? Val::f32(f32FromBits((uint32_t)u)) : Val::f64(f64FromBits(u));
        s.tuple()[0] = real::toOperand(a);
        expr::Operand r = s.run();
        Out want = o.apply(&a);
        if (!real::equals(r, want)) c.fail(showCall(o, &a, 1) + " gives " + show(real::fromOperand(r)) + ", expected " + show(want));
        c.outcome(hashVal(want.v));
      }
      c.steps(1ull << m);
      c.state(mc::mix(top * 4 + low, mc::hashStr(o.name)));
      c.exec((1ull << m) - 1);
    });
    {
      static std::vector<const Op *> b32;
      for (auto *o : bin) if (o->ret == F32) b32.push_back(o);
      mc::phase("binary-f32-grid", "ADD, SUB, MUL, DIV on all pairs of single-precision values with 4 leading mantissa bits (2^13 values), the others zero, all one (left, right or both sides), or alternating; quick: every 4th left value, another one in each pattern", 3, [=](mc::Ctx &c) {
        const Op &o = *b32[c.choose((int)b32.size())];
        static const uint32_t pl[5] = {0, 0x7FFFF, 0, 0x7FFFF, 0x55555}, pr[5] = {0, 0, 0x7FFFF, 0x7FFFF, 0x2AAAA};
        int low = c.choose(5);
        uint32_t x = (mc::thorough() ? (uint32_t)c.choose(1 << 13) : (uint32_t)c.choose(1 << 11) * 4 + low % 4) << 19 | pl[low];
        Sweep s(o);
        Val a[2] = {Val::f32(f32FromBits(x)), Val()};
        s.tuple()[0] = real::toOperand(a[0]);
        for (uint32_t k = 0; k < (1u << 13); ++k) {
          a[1] = Val::f32(f32FromBits(k << 19 | pr[low]));
          s.tuple()[1] = real::toOperand(a[1]);
          expr::Operand r = s.run();
          Out want = o.apply(a);
          if (!real::equals(r, want)) c.fail(showCall(o, a, 3) + " gives " + show(real::fromOperand(r)) + ", expected " + show(want));
        }
        c.steps(1 << 13);
        c.state(mc::mix(x * 8ull + low, mc::hashStr(o.name)));
        c.exec((1 << 13) - 1);
      });
    }
    if (mc::thorough()) {
      static std::vector<const Op *> u32;
      for (auto *o : un) if (o->ret == F32) u32.push_back(o);
      mc::phase("unary-f32-all", "POS, NEG, ABS, ABS_C on all 2^32 single-precision values", 2, [=](mc::Ctx &c) {
        const Op &o = *u32[c.choose((int)u32.size())];
        uint32_t hi = (uint32_t)c.choose(65536) << 16;
        Sweep s(o);
        for (uint32_t k = 0; k < 65536; ++k) {
          Val a = Val::f32(f32FromBits(hi | k));
          s.tuple()[0] = real::toOperand(a);
          expr::Operand r = s.run();
          uint32_t w = o.code[0] == 0x81 ? hi | k : o.code[0] == 0x82 ? (hi | k) ^ 0x80000000u : (hi | k) & 0x7fffffffu;
          Val v;
          if (!real::readAs(r, F32, v) || v.t != F32 || (bitsOf(v.f) != w && !(isnan(v.f) && isnan(a.f))))
            c.fail(showCall(o, &a, 1) + " gives " + show(real::fromOperand(r)) + ", expected " + show(o.apply(&a)));
        }
        c.steps(65536);
        c.state(mc::mix(hi, mc::hashStr(o.name)));
        c.exec(65535);
      });
    }
  });
}
