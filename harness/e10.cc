// E10: immediates, extents and end markers.
#include "exprcheck.h"
#include "refdecode.h"
using namespace ec;

// Decodes `bytes` (followed by `rest`, which must not be looked at), runs, and compares consumption and all results.
static void check(mc::Ctx &c, const Bytes &bytes, const Row &want, const Bytes &rest, const Row &tuple, const std::string &what) {
  Bytes full = bytes + rest;
  Code code(full);
  expr::Runner r;
  c.note(what);
  const unsigned char *e;
  auto where = [&]() { return what + " [" + hex(bytes).substr(0, 300) + "]" + (rest.empty() ? "" : " followed by [" + hex(rest) + "]"); };
  try {
    e = r.Decode(code.data(), code.size());
  } catch (const std::exception &x) {
    c.fail("decoding " + where() + " raised " + x.what());
  }
  c.steps();
  if (e != code.data() + bytes.size()) c.fail("decoding " + where() + " consumed " + std::to_string(e - code.data()) + " bytes of " + std::to_string(bytes.size()));
  code.scribble();
  expr::Tuple t = real::toTuple(tuple);
  r.BindTuple(&t);
  Result res = real::run(r);
  if (res.error) c.fail("running " + where() + " raised " + res.what);
  std::unique_ptr<expr::Tuple> all(r.GetAll());
  if (all->size() != want.size()) c.fail(where() + " leaves " + std::to_string(all->size()) + " results, expected " + std::to_string(want.size()));
  for (size_t i = 0; i < want.size(); ++i)
    if (!real::equals((*all)[i], Out::of(want[i]))) c.fail(where() + " decodes to " + show(real::fromOperand((*all)[i])) + ", expected " + show(want[i]));
  c.outcome(hashRow(want));
}
static Bytes raw(std::initializer_list<int> l) { Bytes b; for (int x : l) b.push_back((unsigned char)x); return b; }

// Minimal varint of v with `pad` redundant bytes.
static Bytes varint(uint64_t v, int pad) {
  Bytes b;
  putVarint(b, v);
  for (int i = 0; i < pad; ++i) { b.back() |= 0x80; b.push_back(0); }
  return b;
}
static const std::vector<Bytes> &contexts() {
  // what follows: nothing; end marker and more; operators that would change the result if interpreted
  static std::vector<Bytes> v = {Bytes(), raw({0x00}), raw({0x00, 0x00}), raw({0x00, 0x11, 0x05}), raw({0x00, 0x83, 0x01}), raw({0x00, 0xFF}), raw({0x00, 0x17, 0xFF})};
  return v;
}
// Embeds one immediate: [int const] [it] {nothing | end marker + rest}
static void embed(mc::Ctx &c, const Bytes &b, const Val &v, int ctx, const Row &tuple, const std::string &what) {
  const Bytes &rest = contexts()[ctx];
  Bytes x = encConst(Val::i32(300)) + b;
  if (rest.empty()) check(c, x, {Val::i32(300), v}, Bytes(), tuple, what);
  else check(c, x + raw({0}), {Val::i32(300), v}, rest.substr(1), tuple, what);
}

int main(int argc, char **argv) {
  return mc::mcMain(argc, argv, [] {
    mc::phase("varint-bytes", "INT32/INT64 constants and negated constants: all varint byte patterns of 1, 2 and 3 bytes", 3, [](mc::Ctx &c) {
      int n = 1 + c.choose(3);
      int kind = c.choose(4);  // CONST/CONST_N x INT32/INT64
      Bytes b = raw({(kind & 1 ? 0x20 : 0x10) | (kind & 2 ? 2 : 1)});
      uint64_t v = 0;
      for (int i = 0; i < n; ++i) {
        int x = c.choose(128);
        v |= (uint64_t)x << (7 * i);
        b.push_back((unsigned char)(x | (i + 1 < n ? 0x80 : 0)));
      }
      if (n == 1) c.choose(1);
      T t = kind & 2 ? I64 : I32;
      Val w = mkInt(t, kind & 1 ? -(__int128)v : (__int128)v);
      check(c, b, {w}, Bytes(), {}, "varint");
      c.state(mc::hashBytes(b.data(), b.size()));
    });
    mc::phase("varint-values", "every value 2^k+d, -2^k+d (d in -2..2) of 64 bits as INT32 and INT64 immediate, CONST and CONST_N, minimal and with redundant bytes up to 10, in 7 contexts (end markers, following bytes)", 3, [](mc::Ctx &c) {
      int kind = c.choose(4);
      T t = kind & 2 ? I64 : I32;
      const Dom &d = dom(I64, 2);
      uint64_t v = (uint64_t)c.pick(d).i;
      int pad = c.choose(10);
      int ctx = c.choose((int)contexts().size());
      Bytes m = varint(v, 0);
      if (m.size() + pad > 10) return;
      Bytes b = raw({(kind & 1 ? 0x20 : 0x10) | (int)t}) + varint(v, pad);
      Val w = mkInt(t, kind & 1 ? -(__int128)(int64_t)v : (__int128)(int64_t)v);
      c.state(mc::hashBytes(b.data(), b.size(), ctx));
      embed(c, b, w, ctx, {}, "varint " + std::to_string(v) + " padded by " + std::to_string(pad));
      if (c.wantSample()) c.sample(hex(b) + " = " + show(w));
    });
    mc::phase("varint-groups", "10-byte and shorter varints whose 7-bit groups are each 00, 01, 40 or 7F (all combinations up to 7 groups; thorough 9): bits land in place, bits beyond the width are dropped", 3, [](mc::Ctx &c) {
      int kind = c.choose(4);
      T t = kind & 2 ? I64 : I32;
      int n = 1 + c.choose(10);
      static const int g[4] = {0x00, 0x01, 0x40, 0x7f};
      Bytes b = raw({(kind & 1 ? 0x20 : 0x10) | (int)t});
      unsigned __int128 v = 0;
      int free = mc::thorough() ? 9 : 7;
      int start = n > free ? c.choose(n - free + 1) : 0;
      if (n <= free) c.choose(1);
      for (int i = 0; i < n; ++i) {
        int x = i >= start && i < start + free ? g[c.choose(4)] : 0x2A;
        v |= (unsigned __int128)x << (7 * i);
        b.push_back((unsigned char)(x | (i + 1 < n ? 0x80 : 0)));
      }
      Val w = mkInt(t, kind & 1 ? -(__int128)(int64_t)(uint64_t)v : (__int128)(int64_t)(uint64_t)v);
      c.state(mc::hashBytes(b.data(), b.size()));
      check(c, b, {w}, Bytes(), {}, "varint");
    });
    mc::phase("floats", "FLOAT: all bit patterns with 16 leading bits (thorough: 20) and each single byte 00..FF in each place; DOUBLE: all sign/exponents x 3 mantissas, each byte in each place; in 7 contexts", 2, [](mc::Ctx &c) {
      int kind = c.choose(4);
      int ctx;
      if (kind == 0) {
        int B = mc::thorough() ? 20 : 16;
        uint32_t u = (uint32_t)c.choose(1 << B) << (32 - B);
        if (u & 0x10000) u |= 0x1234;
        Val v = Val::f32(f32FromBits(u));
        c.state(hashVal(v));
        embed(c, encConst(v), v, 0, {}, "float");
      } else if (kind == 1) {
        int place = c.choose(4), byte = c.choose(256);
        ctx = c.choose((int)contexts().size());
        uint32_t u = (0x3f9d70a4u & ~(0xffu << (8 * place))) | (uint32_t)byte << (8 * place);
        Val v = Val::f32(f32FromBits(u));
        c.state(hashVal(v, ctx));
        embed(c, encConst(v), v, ctx, {}, "float");
      } else if (kind == 2) {
        uint64_t u = (uint64_t)c.choose(4096) << 52;
        u |= std::vector<uint64_t>{0, 0x000123456789abcdULL, 0x000fffffffffffffULL}[c.choose(3)];
        Val v = Val::f64(f64FromBits(u));
        c.state(hashVal(v));
        embed(c, encConst(v), v, 0, {}, "double");
      } else {
        int place = c.choose(8), byte = c.choose(256);
        ctx = c.choose((int)contexts().size());
        uint64_t u = (0x3ff3ae147ae147aeULL & ~(0xffULL << (8 * place))) | (uint64_t)byte << (8 * place);
        Val v = Val::f64(f64FromBits(u));
        c.state(hashVal(v, ctx));
        embed(c, encConst(v), v, ctx, {}, "double");
      }
    });
    mc::phase("strings", "STRING: every length up to 700 and around 2^14, 2^16, 2^21 with position-dependent content; every byte value; all pairs of bytes; redundant length bytes; in contexts", 2, [](mc::Ctx &c) {
      int kind = c.choose(4);
      std::string s;
      int ctx = 0, pad = 0;
      if (kind == 0) {
        static const std::vector<int> big = mc::sizes(702, 140000, {2097151, 2097152, 2097153, 3000000});
        int i = c.choose(701 + (int)big.size());
        int n = i <= 700 ? i : big[i - 701];
        for (int k = 0; k < n; ++k) s += (char)(k * 7 + k / 256);
        if (n < 20000) ctx = c.choose((int)contexts().size());
      } else if (kind == 1) {
        int b = c.choose(256);
        ctx = c.choose((int)contexts().size());
        s = std::string("x") + (char)b + "y";
      } else if (kind == 2) {
        int a = c.choose(256), b = c.choose(256);
        s = std::string(1, (char)a) + (char)b;
      } else {
        int n = c.choose(300);
        pad = c.choose(4);
        s = std::string(n, '\0');
        ctx = c.choose((int)contexts().size());
      }
      Val v = Val::str(s);
      Bytes b = raw({0x17}) + varint(s.size(), pad) + Bytes((const unsigned char *)s.data(), s.size());
      c.state(mc::hashBytes(b.data(), b.size(), ctx));
      embed(c, b, v, ctx, {}, "string of " + std::to_string(s.size()) + " bytes");
    });
    mc::phase("constant-pairs", "every ordered pair of constants of the extended domains (of equal and of different types) in one program, bit for bit; then the same two in another order in a second evaluator", 2, [](mc::Ctx &c) {
      static Dom d;
      if (d.empty()) for (T t : kTypes) for (auto &v : dom(t, 1)) d.push_back(v);
      int i = c.choose((int)d.size());
      int part = c.choose(8);
      const Val &x = d[i];
      for (int j = part; j < (int)d.size(); j += 8) {
        const Val &y = d[j];
        c.state(mc::mix(i, j));
        check(c, encConst(x) + encConst(y) + encConst(x), {x, y, x}, Bytes(), {}, "constants " + show(x) + " and " + show(y));
        check(c, encConst(y) + encConst(x) + raw({0}), {y, x}, raw({0x11}), {}, "constants " + show(y) + " and " + show(x));
        c.exec(2);
      }
    });
    mc::phase("similar-strings", "programs of 20 strings of one length (50 lengths to 66000, around the powers of two and ten) which differ in one byte at the first, middle or last place, or in their length", 1, [](mc::Ctx &c) {
      static const std::vector<int> lens = mc::sizes(1, 65537, {22, 23, 24, 66000});
      int n = c.pick(lens), rot = c.choose(2);
      std::string base(n, 'k');
      Row want;
      auto add = [&](const std::string &s) { want.push_back(Val::str(s)); };
      add(base);
      for (int p : {0, n / 2, n - 1, n / 3}) for (char ch : {'j', '\0', '\xff', 'K'}) { std::string s = base; s[p] = ch; add(s); }
      add(base + "k");
      add(base.substr(1));
      add(base);
      if (rot) std::reverse(want.begin(), want.end());
      Bytes b;
      for (auto &v : want) b += encConst(v);
      c.state(mc::mix(n, rot));
      check(c, b, want, Bytes(), {}, "similar strings of " + std::to_string(n) + " bytes");
      for (auto &v : want) check(c, encConst(v), {v}, Bytes(), {}, "one of similar strings of " + std::to_string(n) + " bytes");
    });
    mc::phase("variables", "variables of every type with every index up to 300 and around the powers of two to 2^14, minimal and redundant encodings, in contexts", 3, [](mc::Ctx &c) {
      T t = kTypes[c.choose(6)];
      static const std::vector<int> big = mc::sizes(301, 16385, {16500});
      int i = c.choose(301 + (int)big.size());
      int idx = i <= 300 ? i : big[i - 301];
      int pad = c.choose(3);
      int ctx = c.choose((int)contexts().size());
      static std::map<int, Row> rows;
      Row &full = rows[t];
      if (full.empty())
        for (int k = 0; k <= 16500; ++k)
          full.push_back(t == I32 ? Val::i32(k) : t == I64 ? Val::i64(k * 3LL) : t == BOOL ? Val::b(k % 3 == 0) : t == F32 ? Val::f32((float)k) : t == F64 ? Val::f64(k + 0.5) : Val::str("s" + std::to_string(k)));
      Row row(full.begin(), full.begin() + idx + 1);
      Bytes b = raw({0x30 | (int)t}) + varint(idx, pad);
      c.state(mc::hashBytes(b.data(), b.size(), ctx));
      embed(c, b, row[idx], ctx, row, "variable " + std::to_string(idx));
    });
    mc::phase("far-variables", "variables of every type among 100001 elements, around the powers of two and ten from 2^14 on, minimal and redundant encodings", 1, [](mc::Ctx &c) {
      static const std::vector<int> at = mc::sizes(16385, 100000);
      T t = kTypes[c.choose(6)];
      int idx = c.pick(at), pad = c.choose(3);
      static std::map<int, expr::Tuple> tuples;
      auto value = [&](int k) { return t == I32 ? Val::i32(k) : t == I64 ? Val::i64(k * 3LL) : t == BOOL ? Val::b(k % 3 == 0) : t == F32 ? Val::f32((float)k) : t == F64 ? Val::f64(k + 0.5) : Val::str("s" + std::to_string(k)); };
      expr::Tuple &full = tuples[t];
      if (full.empty()) for (int k = 0; k <= 100000; ++k) full.push_back(real::toOperand(value(k)));
      Bytes b = raw({0x30 | (int)t}) + varint(idx, pad) + raw({0x30 | (int)t}) + varint(7, 0);
      Code code(b);
      expr::Runner r;
      r.Decode(code.data(), code.size());
      r.BindTuple(&full);
      Result res = real::run(r);
      c.steps(2);
      std::unique_ptr<expr::Tuple> all(r.GetAll());
      if (res.error || all->size() != 2 || !real::equals((*all)[0], Out::of(value(idx))) || !real::equals((*all)[1], Out::of(value(7)))) c.fail("variable " + std::to_string(idx) + " of type " + tname(t) + " gives " + real::show(res));
      c.state(mc::mix(idx, (int)t * 3 + pad));
    });
    mc::phase("extents", "all sequences of up to 4 (thorough: 6) items from 13 whose immediates contain 00, EOE-like and operator-like bytes, then the end marker and 3 kinds of following bytes; decoding goes on from the returned position", 3, [](mc::Ctx &c) {
      struct Item { Bytes b; Val v; };
      static std::vector<Item> items;
      if (items.empty()) {
        auto add = [](const Val &v) { items.push_back({encConst(v), v}); };
        add(Val::i32(0));
        add(Val::i64(128));           // 80 01
        add(Val::i32(16384));         // 80 80 01
        items.push_back({raw({0x11, 0x80, 0x00}), Val::i32(0)});
        add(Val::f32(0.0f));          // 00 00 00 00
        add(Val::f64(1.0));           // 3F F0 00 ...
        add(Val::str(""));
        add(Val::str(std::string("\0\0", 2)));
        add(Val::str(std::string("\x83\x01\x00", 3)));
        items.push_back({raw({0x27 & 0xF0 | 1, 0x00}), Val::i32(0)});  // -0
        items.push_back({raw({0x31, 0x00}), Val::i32(42)});            // variable 0
        items.push_back({raw({0x03}), Val()});
        items.push_back({raw({0x13}), Val::b(true)});
      }
      int n = 1 + c.choose(mc::thorough() ? 6 : 4);
      int tail = c.choose(4);
      Bytes b;
      Row want;
      for (int i = 0; i < n; ++i) {
        const Item &it = items[c.choose((int)items.size())];
        b += it.b;
        want.push_back(it.v);
      }
      c.state(mc::hashBytes(b.data(), b.size(), tail));
      Row tuple{Val::i32(42)};
      static const std::vector<Bytes> tails = {Bytes(), raw({0x11, 0x09}), raw({0x00, 0x11}), raw({0xFF, 0xFF})};
      if (tail == 0) check(c, b, want, Bytes(), tuple, "items without end marker");
      check(c, b + raw({0}), want, tails[tail], tuple, "items");
      if (tail == 1) {  // the second expression starts at the returned position
        Bytes two = b + raw({0}) + tails[1];
        Code code(two);
        expr::Runner r;
        const unsigned char *e = r.Decode(code.data(), code.size());
        expr::Runner r2;
        const unsigned char *e2 = r2.Decode(e, code.size() - (e - code.data()));
        Result x = real::run(r2);
        if (e2 != code.data() + code.size() || !real::agrees(x, Out::of(Val::i32(9)))) c.fail("continuing after [" + hex(b) + "00] gives " + real::show(x));
      }
    });
    mc::phase("operator-extents", "every operator, applied to literals, consumes exactly its bytes and stops at the end marker", 2, [](mc::Ctx &c) {
      const Op &o = ops()[c.choose((int)ops().size())];
      int ctx = c.choose((int)contexts().size());
      Val a[3];
      for (size_t i = 0; i < o.args.size(); ++i) a[i] = dom(o.args[i], 0)[1];
      Row t;
      Bytes b = codeOf(o, a, 0, t);
      Out w = o.apply(a);
      if (w.kind != Out::Value || w.ulp) return;
      c.state(mc::hashBytes(b.data(), b.size(), ctx));
      embed(c, b, w.v, ctx, {}, showCall(o, a, 0));
    });
  });
}
