// E06: comparisons, MIN and MAX.
#include "exprcheck.h"
using namespace ec;

// Strings that probe the order: prefixes, embedded NUL, high bytes, lengths around small-buffer and word sizes.
static const Dom &orderStrings() {
  static Dom d;
  if (d.empty()) {
    std::vector<std::string> v = {""};
    std::string alpha("\0a\x7f\x80\xff", 5);
    int maxLen = mc::thorough() ? 5 : 4;
    std::vector<std::string> cur = {""};
    for (int l = 1; l <= maxLen; ++l) {
      std::vector<std::string> nx;
      for (auto &s : cur) for (char ch : alpha) nx.push_back(s + ch);
      v.insert(v.end(), nx.begin(), nx.end());
      cur = nx;
    }
    for (int n : {7, 8, 9, 15, 16, 17, 31, 32, 33, 255, 256, 257}) {
      std::string base(n, 'm');
      v.push_back(base);
      for (int p : {0, n / 2, n - 1})
        for (char ch : {'a', '\xf0', '\0'}) { std::string s = base; s[p] = ch; v.push_back(s); }
    }
    for (auto &s : v) d.push_back(Val::str(s));
  }
  return d;
}
static const Dom &d6(T t) { return t == STR ? orderStrings() : dom(t, 2); }

static std::map<std::string, expr::Operand> evalAll(mc::Ctx &c, T t, const Val &x, const Val &y) {
  static std::map<int, std::vector<std::pair<std::string, std::shared_ptr<Sweep>>>> sweeps;
  auto &v = sweeps[t];
  if (v.empty())
    for (auto n : {"EQ", "GE", "GT", "LE", "LT", "NE", "MIN", "MAX"}) v.push_back({n, std::make_shared<Sweep>(op(std::string(n) + "<" + tname(t) + ">"))});
  expr::Operand a = real::toOperand(x), b = real::toOperand(y);
  std::map<std::string, expr::Operand> out;
  for (auto &s : v) {
    s.second->tuple()[0] = a;
    s.second->tuple()[1] = b;
    out[s.first] = s.second->run();
    c.steps();
  }
  return out;
}

int main(int argc, char **argv) {
  return mc::mcMain(argc, argv, [] {
    auto set = opsWhere([](const Op &o) { return starts(o, {"EQ", "GE", "GT", "LE", "LT", "NE", "MIN", "MAX"}); });
    gridPhase("grid-nullable", "every comparison, MIN and MAX of every type on all pairs of basic boundary values and NULL, all literal/variable forms", set,
              [](const Op &o, size_t i) -> const Dom & { return dom(o.args[i], 1, true); }, {0, 3, 1, 2});
    mc::phase("pairs", "all pairs over the rich domain of each type (powers of two +-2; exponents, limits, NaN, signed zeros; all strings over {NUL, a, 0x7f, 0x80, 0xff} up to length 4 (thorough 5) and longer strings differing in one byte): trichotomy, combinations, MIN/MAX agree with the reference order", 3, [](mc::Ctx &c) {
      T t = kTypes[c.choose(6)];
      const Dom &d = d6(t);
      const Val &x = c.pick(d);
      const Val &y = c.pick(d);
      auto r = evalAll(c, t, x, y);
      int k = cmp(x, y);
      c.state(hashVal(y, hashVal(x)));
      c.outcome(mc::mix(t, k));
      auto truth = [&](const char *n) {
        Val v;
        if (r[n] == nullptr || !real::readAs(r[n], BOOL, v) || v.t != BOOL) c.fail(std::string(n) + "(" + show(x) + ", " + show(y) + ") is not a boolean");
        return v.i != 0;
      };
      bool lt = truth("LT"), eq = truth("EQ"), gt = truth("GT"), le = truth("LE"), ge = truth("GE"), ne = truth("NE");
      auto bad = [&](const char *w) { c.fail(std::string(w) + " of " + show(x) + " and " + show(y) + ": LT=" + std::to_string(lt) + " EQ=" + std::to_string(eq) + " GT=" + std::to_string(gt) + " LE=" + std::to_string(le) + " GE=" + std::to_string(ge) + " NE=" + std::to_string(ne)); };
      if (lt != (k == -1) || eq != (k == 0) || gt != (k == 1)) bad("wrong order");
      if (le != (lt || eq) || ge != (gt || eq) || ne != !eq) bad("inconsistent combination");
      for (auto n : {"MIN", "MAX"}) {
        Val a[2] = {x, y};
        Out w = op(std::string(n) + "<" + tname(t) + ">").apply(a);
        if (w.kind == Out::Value && !real::equals(r[n], w)) c.fail(std::string(n) + "(" + show(x) + ", " + show(y) + ") = " + show(real::fromOperand(r[n])) + ", expected " + show(w));
        // -0.0 and 0.0 are equal: the result must be one of the two operands
        Val v;
        if (w.kind == Out::Any && k == 0 && (!real::readAs(r[n], t, v) || (!same(v, x) && !same(v, y)))) c.fail(std::string(n) + "(" + show(x) + ", " + show(y) + ") is neither operand");
      }
      if (c.wantSample()) c.sample(show(x) + " vs " + show(y) + ": " + std::to_string(k));
    });
    mc::phase("places", "strings of every length 1..40 and around the powers of two to 4096 against copies which differ in one place (every one; of long ones the ends and the borders of powers of two) or in two with opposite signs", 2, [](mc::Ctx &c) {
      static const std::vector<int> big = mc::sizes(41, 4097);
      int i = c.choose(40 + (int)big.size());
      int n = i < 40 ? i + 1 : big[i - 40];
      const std::vector<int> ps = mc::places(n);
      int p = ps[c.choose((int)ps.size())];
      std::string base(n, 'm');
      for (int k = 0; k < n; ++k) base[k] = (char)('b' + k % 23);
      Val a = Val::str(base);
      for (int q : ps) {
        if (q < p) continue;
        for (int sign : {-1, 1}) {
          std::string y = base;
          y[p] += sign;
          if (q != p) y[q] -= sign;
          Val b = Val::str(y);
          auto r = evalAll(c, STR, a, b);
          for (auto f : {"EQ", "GE", "GT", "LE", "LT", "NE", "MIN", "MAX"}) {
            Val args[2] = {a, b};
            if (!real::equals(r[f], op(std::string(f) + "<str>").apply(args))) c.fail(std::string(f) + " of strings of " + std::to_string(n) + " characters which differ at " + std::to_string(p) + " and " + std::to_string(q) + " is wrong");
          }
          c.state(mc::mix(mc::mix(n, p), mc::mix(q, sign)));
        }
      }
    });
    mc::phase("long-strings", "strings of lengths up to 70000 around powers of two against themselves and copies that differ in the first, a middle or the last character or have one more or one fewer", 2, [](mc::Ctx &c) {
      static const std::vector<int> lens = mc::sizes(48, 65537, {70000, 131073});
      int n = c.pick(lens), k = c.choose(20);
      std::string x(n, 'm'), y = x;
      static const char chs[] = {'a', 'z', '\xf0', '\0'};
      if (k < 16) {
        const int ps[] = {0, n / 3, n / 2, n - 1};
        y[ps[k / 4]] = chs[k % 4];
      } else if (k == 16) y += 'a';
      else if (k == 17) y.pop_back();
      else if (k == 18) y += '\0';
      Val a = Val::str(x), b = Val::str(y);
      for (int swap = 0; swap < 2; ++swap, std::swap(a, b)) {
        auto r = evalAll(c, STR, a, b);
        int q = cmp(a, b);
        for (auto n : {"EQ", "GE", "GT", "LE", "LT", "NE", "MIN", "MAX"}) {
          Val args[2] = {a, b};
          Out w = op(std::string(n) + "<str>").apply(args);
          if (!real::equals(r[n], w)) c.fail(std::string(n) + " of strings of " + std::to_string(a.s.size()) + " and " + std::to_string(b.s.size()) + " characters (variation " + std::to_string(k) + ", order " + std::to_string(q) + ") is wrong");
        }
        c.state(mc::mix(mc::mix(n, k), swap));
        c.outcome(q);
      }
    });
    mc::phase("triples", "transitivity on all triples of the basic boundary values of each type", 3, [](mc::Ctx &c) {
      T t = kTypes[c.choose(6)];
      static std::map<int, std::vector<std::vector<int>>> table;  // the implementation's order, as -1/0/1/2
      const Dom &d = dom(t, 1);
      auto &m = table[t];
      if (m.empty()) {
        m.assign(d.size(), std::vector<int>(d.size(), 2));
        for (size_t i = 0; i < d.size(); ++i)
          for (size_t j = 0; j < d.size(); ++j) {
            auto r = evalAll(c, t, d[i], d[j]);
            Val lt, eq, gt;
            real::readAs(r["LT"], BOOL, lt);
            real::readAs(r["EQ"], BOOL, eq);
            real::readAs(r["GT"], BOOL, gt);
            m[i][j] = lt.i ? -1 : eq.i ? 0 : gt.i ? 1 : 2;
          }
      }
      size_t i = c.choose((int)d.size()), j = c.choose((int)d.size()), k = c.choose((int)d.size());
      c.state(mc::mix(mc::mix(mc::mix(t, i), j), k));
      c.steps(3);
      bool ij = m[i][j] == -1 || m[i][j] == 0, jk = m[j][k] == -1 || m[j][k] == 0, ik = m[i][k] == -1 || m[i][k] == 0;
      if (ij && jk && !ik) c.fail("not transitive: " + show(d[i]) + " <= " + show(d[j]) + " <= " + show(d[k]));
    });
    // whole small spaces
    mc::phase("i32-f32-window", "32-bit integers: all pairs in [-R, R] around 0, the minimum and the maximum; singles: all bit patterns with 12 leading bits (thorough: 14)", 2, [](mc::Ctx &c) {
      int kind = c.choose(4);
      int R = mc::thorough() ? 700 : 300;
      int B = mc::thorough() ? 13 : 11;
      if (kind < 3) {
        int64_t base = kind == 0 ? 0 : kind == 1 ? (int64_t)INT32_MIN + R : (int64_t)INT32_MAX - R;
        Val x = Val::i32((int32_t)(base + c.choose(2 * R + 1) - R));
        static Sweep lt(op("LT<i32>")), le(op("LE<i32>")), eq(op("EQ<i32>")), mn(op("MIN<i32>")), gt(op("GT<i32>")), ge(op("GE<i32>")), ne(op("NE<i32>")), mx(op("MAX<i32>"));
        Sweep *all[8] = {&lt, &le, &eq, &mn, &gt, &ge, &ne, &mx};
        for (int j = -R; j <= R; ++j) {
          Val y = Val::i32((int32_t)(base + j));
          for (int q = 0; q < 8; ++q) {
            all[q]->tuple()[0] = real::toOperand(x);
            all[q]->tuple()[1] = real::toOperand(y);
            expr::Operand r = all[q]->run();
            bool ok;
            Val v;
            if (q == 3 || q == 7) ok = real::readAs(r, I32, v) && v.i == (q == 3 ? std::min(x.i, y.i) : std::max(x.i, y.i));
            else ok = real::readAs(r, BOOL, v) && v.i == (q == 0 ? x.i < y.i : q == 1 ? x.i <= y.i : q == 2 ? x.i == y.i : q == 4 ? x.i > y.i : q == 5 ? x.i >= y.i : x.i != y.i);
            if (!ok) c.fail("comparison " + std::to_string(q) + " (of LT LE EQ MIN GT GE NE MAX) of " + show(x) + " and " + show(y) + " gives " + show(real::fromOperand(r)));
          }
        }
        c.steps(8 * (2 * R + 1));
        c.exec(2 * R);
        c.state(hashVal(x, kind));
      } else {
        uint32_t i = (uint32_t)c.choose(1 << B);
        Val x = Val::f32(f32FromBits(i << (32 - B)));
        static Sweep lt(op("LT<f32>")), ge(op("GE<f32>")), eq(op("EQ<f32>"));
        Sweep *all[3] = {&lt, &ge, &eq};
        for (uint32_t j = 0; j < (1u << B); ++j) {
          Val y = Val::f32(f32FromBits(j << (32 - B)));
          int k = cmp(x, y);
          for (int q = 0; q < 3; ++q) {
            all[q]->tuple()[0] = real::toOperand(x);
            all[q]->tuple()[1] = real::toOperand(y);
            expr::Operand r = all[q]->run();
            Val v;
            if (!real::readAs(r, BOOL, v) || v.i != (q == 0 ? k == -1 : q == 1 ? (k == 0 || k == 1) : k == 0))
              c.fail("comparison " + std::to_string(q) + " (of LT GE EQ) of " + show(x) + " and " + show(y) + " gives " + show(real::fromOperand(r)));
          }
        }
        c.steps(3 << B);
        c.exec((1 << B) - 1);
        c.state(hashVal(x, kind));
      }
    });
  });
}
