// E07: casts between numeric and boolean types.
#include "exprcheck.h"
using namespace ec;

// Everything near the borders of rounding and of the target ranges.
static const Dom &castDom(T t) {
  static std::map<int, Dom> m;
  Dom &d = m[t];
  if (d.empty()) {
    d = dom(t, 2);
    auto add = [&](double x) { d.push_back(t == F32 ? Val::f32((float)x) : Val::f64(x)); };
    if (t == F32 || t == F64) {
      for (double edge : {2147483648.0, -2147483648.0, 4294967296.0, -4294967296.0, 9223372036854775808.0, -9223372036854775808.0, 18446744073709551616.0, 16777216.0, -16777216.0, 4503599627370496.0, 9007199254740992.0, 0.0, 1.0, -1.0}) {
        double up = edge, dn = edge;
        float fu = (float)edge, fd = (float)edge;
        for (int k = 0; k < 40; ++k) {
          if (t == F64) { add(up); add(dn); up = nextafter(up, INFINITY); dn = nextafter(dn, -INFINITY); }
          else { add(fu); add(fd); fu = nextafterf(fu, INFINITY); fd = nextafterf(fd, -INFINITY); }
        }
      }
      // every half and its neighbours around small numbers
      for (int k = -2000; k <= 2000; ++k) {
        double h = k * 0.5;
        add(h);
        add(t == F64 ? nextafter(h, INFINITY) : nextafterf((float)h, INFINITY));
        add(t == F64 ? nextafter(h, -INFINITY) : nextafterf((float)h, -INFINITY));
      }
      for (int e = 20; e < 64; ++e)
        for (double o : {0.25, 0.5, 0.75, 1.5}) { add(ldexp(1.0, e) + o); add(-ldexp(1.0, e) + o); }
    } else if (t == I32 || t == I64) {
      // odd patterns which do not fit the mantissa
      for (int k = 20; k < (t == I32 ? 31 : 63); ++k)
        for (int64_t o : {-5, -3, 3, 5, 7}) { d.push_back(mkInt(t, ((__int128)1 << k) + o)); d.push_back(mkInt(t, -((__int128)1 << k) + o)); }
      if (t == I64) for (int64_t x : {9007199254740993LL, -9007199254740993LL, 9223372036854775295LL, 9223372036854775296LL, 9223372036854775807LL - 512, 1LL << 40 | 3, -4294967299LL}) d.push_back(Val::i64(x));
    }
  }
  return d;
}

int main(int argc, char **argv) {
  return mc::mcMain(argc, argv, [] {
    static std::vector<const Op *> set;
    set = opsWhere([](const Op &o) { return starts(o, {"CAST", "CAST_C"}) && o.ret != STR && o.args[0] != STR; });
    gridPhase("boundary", "every CAST and CAST_C between numeric and boolean types on powers of two +-2, all halves in [-1000, 1000] and their neighbours, 40 neighbours on each side of every range limit, exponents, limits, NaN, infinities, NULL; literal and variable", set,
              [](const Op &o, size_t) -> const Dom & { return castDom(o.args[0]); }, {0, 1});
    gridPhase("nullable", "the same operators on the basic domain with NULL", set, [](const Op &o, size_t) -> const Dom & { return dom(o.args[0], 1, true); }, {0, 1});
    mc::phase("cast-cast", "every pair of composed casts on the basic domain: the second sees exactly what the first produced", 3, [](mc::Ctx &c) {
      const Op &a = *set[c.choose((int)set.size())];
      const Op &b = *set[c.choose((int)set.size())];
      const Val &v = c.pick(dom(a.args[0], 1));
      if (b.args[0] != a.ret) return;
      checkProgram(c, {iVar(a.args[0], 0), iOp(a), iOp(b)}, {v});
    });
    // sweeps
    static std::vector<const Op *> from32, fromF32, fromF64;
    for (auto *o : set) {
      if (o->args[0] == I32) from32.push_back(o);
      if (o->args[0] == F32) fromF32.push_back(o);
      if (o->args[0] == F64) fromF64.push_back(o);
    }
    auto sweep = [](const Op &o, mc::Ctx &c, uint64_t n, std::function<Val(uint64_t)> make) {
      Sweep s(o);
      for (uint64_t k = 0; k < n; ++k) {
        Val a = make(k);
        Out w = o.apply(&a);
        s.tuple()[0] = real::toOperand(a);
        Result r;
        if (w.kind == Out::Value) {
          try { r.v = s.run(); } catch (const std::exception &e) { r.error = true; r.what = e.what(); }
        } else if (k % 8 == 0 || w.kind == Out::Any) {  // errors are slow: every 8th
          try { r.v = s.run(); } catch (const std::exception &e) { r.error = true; r.what = e.what(); }
        } else {
          continue;
        }
        if (!real::agrees(r, w)) c.fail(showCall(o, &a, 1) + " gives " + real::show(r) + ", expected " + show(w));
        c.steps();
      }
      c.exec(n - 1);
    };
    mc::phase("ties", "every cast from integers and reals on operands at and next to the middle of two target values: for every bit length (exponents 2^-160..2^140 and extremes for double precision), every position of the round bit below it, 4 patterns of the bits above, the bits below it zero, one, half, or all ones, and all ones below a zero round bit; both signs", 2, [=](mc::Ctx &c) {
      T t = std::vector<T>{I32, I64, F32, F64}[c.choose(4)];
      static const uint64_t pat[] = {0, ~0ull, 0xAAAAAAAAAAAAAAAAull, 0x5555555555555555ull};
      int top, q;  // exponent or bit length, position of the round bit
      if (t == I32 || t == I64) {
        top = c.choose(t == I32 ? 31 : 63);
        q = c.choose(top + 1);
      } else {
        top = t == F32 ? c.choose(256) : c.choose(303);
        if (t == F64) top = top == 301 ? 0 : top == 302 ? 2047 : top + 1023 - 160;
        q = c.choose(t == F32 ? 23 : 52);
      }
      std::vector<Val> vs;
      for (uint64_t p : pat)
        for (int low = 0; low < 5; ++low)
          for (int neg = 0; neg < 2; ++neg) {
            uint64_t half = 1ull << q, below = half - 1;
            uint64_t m = (p & ~(below | half)) | (low == 4 ? below : half | (low == 0 ? 0 : low == 1 ? 1 & below : low == 2 ? below & (half >> 1 | half >> 2) : below));
            if (t == I32 || t == I64) {
              __int128 v = (__int128)((m & ((1ull << top) - 1)) | 1ull << top);
              vs.push_back(mkInt(t, neg ? -v : v));
            } else if (t == F32) {
              vs.push_back(Val::f32(f32FromBits((uint32_t)neg << 31 | (uint32_t)top << 23 | (uint32_t)(m & 0x7FFFFF))));
            } else {
              vs.push_back(Val::f64(f64FromBits((uint64_t)neg << 63 | (uint64_t)top << 52 | (m & 0xFFFFFFFFFFFFFull))));
            }
          }
      for (auto *o : set)
        if (o->args[0] == t) {
          sweep(*o, c, vs.size(), [&](uint64_t k) { return vs[k]; });
          c.state(mc::mix(mc::mix(top, q), mc::hashStr(o->name)));
        }
    });
    int H = mc::thorough() ? 65536 : 4096;
    mc::phase("f32-sweep", "every cast from single precision on single-precision bit patterns: thorough all 2^32 but every second low pattern, quick all with the upper 16 bits a multiple of 16 and every 16th low pattern, beginning with another one each time (inputs that must raise: one of 8)", 2, [=](mc::Ctx &c) {
      const Op &o = *fromF32[c.choose((int)fromF32.size())];
      uint32_t hi = (uint32_t)c.choose(H) * (65536 / H);
      uint32_t st = mc::thorough() ? 2 : 16;
      sweep(o, c, 65536 / st, [=](uint64_t k) { return Val::f32(f32FromBits(hi << 16 | ((uint32_t)k * st + (hi / 16 * 7 + hi) % st))); });
      c.state(mc::mix(hi, mc::hashStr(o.name)));
    });
    mc::phase("i32-sweep", "every cast from 32-bit integers: thorough every second, quick all with the upper 16 bits a multiple of 16 and every 16th low pattern, beginning with another one each time", 2, [=](mc::Ctx &c) {
      const Op &o = *from32[c.choose((int)from32.size())];
      uint32_t hi = (uint32_t)c.choose(H) * (65536 / H);
      uint32_t st = mc::thorough() ? 2 : 16;
      sweep(o, c, 65536 / st, [=](uint64_t k) { return Val::i32((int32_t)(hi << 16 | ((uint32_t)k * st + (hi / 16 * 7 + hi) % st))); });
      c.state(mc::mix(hi, mc::hashStr(o.name)));
    });
    int M = mc::thorough() ? 13 : 7;
    mc::phase("f64-grid", "every cast from double precision on all doubles with 7 (thorough: 13) leading mantissa bits, all signs and exponents", 2, [=](mc::Ctx &c) {
      const Op &o = *fromF64[c.choose((int)fromF64.size())];
      uint64_t top = (uint64_t)c.choose(4096);
      sweep(o, c, 1ull << M, [=](uint64_t k) { return Val::f64(f64FromBits(top << 52 | k << (52 - M))); });
      c.state(mc::mix(top, mc::hashStr(o.name)));
    });
  });
}
