// E09: string functions.
#include <set>

#include "exprcheck.h"
using namespace ec;

static Dom g_int;      // positions
static Dom g_short;    // all short strings
static Dom g_rich;     // few but odd strings
static Dom g_blank;    // all strings over blanks and letters (TRIM)
static Dom g_case;     // every single byte, in context

// The call on constants or variables, checking result, operands and a second run on the same operands.
static void call(mc::Ctx &c, const Op &o, const Val *a, unsigned mask) {
  Row row;
  Bytes b = codeOf(o, a, mask, row);
  Out want = o.apply(a);
  expr::Tuple t = real::toTuple(row);
  expr::Tuple before = t;
  Code code(b);
  expr::Runner r;
  r.Decode(code.data(), code.size());
  code.scribble();
  r.BindTuple(&t);
  Result r1 = real::run(r);
  Result r2 = real::run(r);
  c.steps(2);
  uint64_t h = mc::hashStr(o.name);
  for (size_t i = 0; i < o.args.size(); ++i) h = hashVal(a[i], h);
  c.state(h);
  c.outcome(hashVal(want.v));
  if (!real::agrees(r1, want)) c.fail(showCall(o, a, mask) + " gives " + real::show(r1) + ", expected " + show(want));
  if (!real::agrees(r2, want)) c.fail("second run of " + showCall(o, a, mask) + " gives " + real::show(r2) + ", expected " + show(want));
  if (!real::agrees(r1, want)) c.fail("the first result of " + showCall(o, a, mask) + " changed to " + real::show(r1));
  for (size_t i = 0; i < t.size(); ++i)
    if (!real::equals(t[i], Out::of(row[i])) || t[i] != before[i]) c.fail(showCall(o, a, mask) + " altered operand " + std::to_string(i) + " to " + show(real::fromOperand(t[i])));
  if (c.wantSample()) c.sample(showCall(o, a, mask) + " = " + real::show(r1));
}

int main(int argc, char **argv) {
  return mc::mcMain(argc, argv, [] {
    const int reach = mc::thorough() ? 45 : 20;
    for (int k = -reach; k <= reach; ++k) g_int.push_back(Val::i32(k));
    for (int64_t k : {(int64_t)INT32_MAX, (int64_t)INT32_MAX - 1, (int64_t)INT32_MIN, (int64_t)INT32_MIN + 1, (int64_t)INT32_MAX / 2 + 1, (int64_t)INT32_MIN / 2 - 1, (int64_t)255, (int64_t)-255, (int64_t)65536, (int64_t)-65536}) g_int.push_back(Val::i32((int32_t)k));
    for (int n = 0; n <= (mc::thorough() ? 40 : 18); ++n) g_short.push_back(Val::str(std::string("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ").substr(0, n)));
    g_short.push_back(Val::str(std::string("a\0c\0", 4)));
    g_short.push_back(Val::str("\xc3\xa9\xff "));
    g_rich = dom(STR, 1);
    int maxLen = mc::thorough() ? 10 : 8;
    {
      std::vector<std::string> cur = {""};
      for (int l = 0;; ++l) {
        for (auto &s : cur) g_blank.push_back(Val::str(s));
        if (l == maxLen) break;
        std::vector<std::string> nx;
        for (auto &s : cur) for (char ch : {' ', 'x', '\t', 'Y'}) nx.push_back(s + ch);
        cur = nx;
      }
      for (unsigned ch = 0; ch < 128; ++ch)
        for (auto &s : std::vector<std::string>{std::string(1, (char)ch), std::string(1, (char)ch) + "k", "k" + std::string(1, (char)ch), std::string("a") + (char)ch + (char)ch + "Z"}) { g_case.push_back(Val::str(s)); }
    }
    static std::vector<const Op *> pos, un;
    pos = opsWhere([](const Op &o) { return starts(o, {"LEFT", "RIGHT", "SUBSTR3", "SUBSTR2", "MID3", "MID2"}); });
    un = opsWhere([](const Op &o) { return starts(o, {"TRIM", "LTRIM", "RTRIM", "LOWER", "UPPER"}); });
    mc::phase("positions-short", "SUBSTR, MID, LEFT, RIGHT on strings of length 0..18 (thorough: 40) (and with NUL, non-ASCII bytes) x all positions and lengths in [-20, 20] (thorough: [-45, 45]) and extremes, literals and variables, run twice", 3, [](mc::Ctx &c) {
      const Op &o = *pos[c.choose((int)pos.size())];
      Val a[3];
      a[0] = c.pick(g_short);
      a[1] = c.pick(g_int);
      if (o.args.size() == 3) a[2] = c.pick(g_int);
      call(c, o, a, c.choose(2) ? 7 : 0);
    });
    mc::phase("positions-rich", "the same functions on odd strings (blank, long, small-buffer sizes) x positions at every length border", 3, [](mc::Ctx &c) {
      const Op &o = *pos[c.choose((int)pos.size())];
      Val a[3];
      a[0] = c.pick(g_rich);
      int n = (int)a[0].s.size();
      std::vector<int> p = {0, 1, -1, n, -n, n + 1, -n - 1, n - 1, 1 - n, n / 2, -n / 2, 15, 16, INT32_MAX, INT32_MIN};
      a[1] = Val::i32(c.pick(p));
      if (o.args.size() == 3) a[2] = Val::i32(c.pick(p));
      call(c, o, a, 1 + 2 * c.choose(2));
    });
    mc::phase("unary-blanks", "TRIM, LTRIM, RTRIM, LOWER, UPPER on all strings up to length 8 (thorough: 10) over {blank, x, tab, Y}", 2, [](mc::Ctx &c) {
      const Op &o = *un[c.choose((int)un.size())];
      const Val &v = c.pick(g_blank);
      Val a[1] = {v};
      call(c, o, a, c.choose(2));
    });
    mc::phase("unary-bytes", "the same on every ASCII byte in four contexts and on odd strings (for TRIM functions also every byte above)", 2, [](mc::Ctx &c) {
      const Op &o = *un[c.choose((int)un.size())];
      static Dom all;
      if (all.empty()) { all = g_case; all.insert(all.end(), g_rich.begin(), g_rich.end()); }
      Val a[1] = {c.pick(all)};
      call(c, o, a, c.choose(2));
    });
    mc::phase("unary-high-bytes", "the functions leave every byte from 0x80 to 0xff alone, in three contexts", 2, [](mc::Ctx &c) {
      const Op &o = *un[c.choose((int)un.size())];
      char ch = (char)(128 + c.choose(128));
      int k = c.choose(3);
      Val a[1] = {Val::str(k == 0 ? std::string(1, ch) : k == 1 ? std::string("A") + ch + "z" : std::string(" ") + ch + " ")};
      call(c, o, a, 1);
    });
    mc::phase("concat", "CONCAT and string ADD on all pairs of odd strings and of all short strings over {a, B, NUL}", 3, [](mc::Ctx &c) {
      const Op &o = c.choose(2) ? op("CONCAT") : op("ADD<str>");
      static Dom d;
      if (d.empty()) {
        d = g_rich;
        std::vector<std::string> cur = {""};
        for (int l = 1; l <= 3; ++l) {
          std::vector<std::string> nx;
          for (auto &s : cur) for (char ch : {'a', 'B', '\0'}) nx.push_back(s + ch);
          for (auto &s : nx) d.push_back(Val::str(s));
          cur = nx;
        }
      }
      Val a[2] = {c.pick(d), c.pick(d)};
      call(c, o, a, c.choose(4));
    });
    mc::phase("same-operand", "functions whose operands are the same variable used twice, and results reused by two functions: nothing is altered in between", 2, [](mc::Ctx &c) {
      const Val &v = c.pick(g_rich);
      int k = c.choose(6);
      static const char *f[] = {"LOWER", "UPPER", "TRIM", "LTRIM", "RTRIM", "CONCAT"};
      Prog p{iVar(STR, 0), iVar(STR, 0)};
      if (k < 5) p.push_back(iOp(op(f[k])));
      else p = {iVar(STR, 0), iVar(STR, 0), iVar(STR, 0), iOp(op("CONCAT"))};
      p.push_back(iOp(op("CONCAT")));
      p.push_back(iVar(STR, 0));
      p.push_back(iOp(op("CONCAT")));
      checkProgram(c, p, {v});
      // constants of the program must survive a run too
      Prog q{iConst(v, STR), iOp(op(f[k < 5 ? k : 0])), iConst(v, STR), iOp(op("CONCAT"))};
      checkProgram(c, q, {});
    });
    mc::phase("long-strings", "positions, lengths and their sums at the borders of 7, 8, 15, 16 and 31 bits (and +-1, their negatives) on strings of lengths at those borders up to 70000", 3, [](mc::Ctx &c) {
      static const std::vector<int> lens = {126, 127, 128, 129, 255, 256, 257, 511, 512, 1024, 4096, 8192, 16384, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 70000};
      static std::vector<int> pts;
      if (pts.empty()) {
        pts = {0, 1, -1, 40000, 30000, -40000, 70000, -70000};
        for (int b : {127, 128, 255, 256, 512, 1024, 4096, 16384, 32767, 32768, 65535, 65536}) for (int k : {b - 1, b, b + 1, -b}) pts.push_back(k);
        pts.push_back(INT32_MAX - 40000);
      }
      const Op &o = *pos[c.choose((int)pos.size())];
      int n = c.pick(lens);
      static std::map<int, Val> strs;
      Val &s = strs[n];
      if (s.isNull()) {
        std::string x;
        for (int i = 0; i < n; ++i) x += (char)('!' + (i * 7 + i / 90) % 90);
        s = Val::str(x);
      }
      int p = c.pick(pts);
      std::set<int> seconds(pts.begin(), pts.end());
      if (o.args.size() == 3) for (int k : {p, p + 1, p + 128, p + 256, p + 32768, p + 65536, n - p, n - p + 1}) seconds.insert(k);
      else seconds = {0};
      for (int q : seconds) {
        Val a[3] = {s, Val::i32(p), Val::i32(q)};
        call(c, o, a, 1);
      }
    });
    int big = mc::thorough() ? 5000 : 600;
    mc::phase("lengths", "every string length up to 600 (thorough: 5000): first, last and middle characters by every function", 2, [=](mc::Ctx &c) {
      int n = c.choose(big + 1);
      const Op &o = *pos[c.choose((int)pos.size())];
      std::string s;
      for (int i = 0; i < n; ++i) s += (char)('!' + i % 90);
      for (int p : {0, 1, n - 1, n, -n, n / 2, -1}) {
        Val a[3] = {Val::str(s), Val::i32(p), Val::i32(o.name == "SUBSTR3" ? p + 3 : n / 3)};
        call(c, o, a, 1);
      }
    });
  });
}
