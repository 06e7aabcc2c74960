// E08: casts between strings and numbers.
#include "exprcheck.h"
using namespace ec;

static const Op &cst(T d, T s, bool chk = false) { return op(std::string(chk ? "CAST_C<" : "CAST<") + tname(d) + "," + tname(s) + ">"); }

// Applies one cast to a variable, returns the result.
static Result applyCast(const Op &o, const Val &v) {
  Sweep s(o);
  s.tuple()[0] = real::toOperand(v);
  Result r;
  try { r.v = s.run(); } catch (const std::exception &e) { r.error = true; r.what = e.what(); }
  return r;
}

int main(int argc, char **argv) {
  return mc::mcMain(argc, argv, [] {
    static std::vector<const Op *> to, from;
    to = opsWhere([](const Op &o) { return starts(o, {"CAST", "CAST_C"}) && o.ret == STR; });
    from = opsWhere([](const Op &o) { return starts(o, {"CAST", "CAST_C"}) && o.args[0] == STR; });
    gridPhase("to-string", "every number and boolean of the rich domains (and NULL) to a string, CAST and CAST_C, literal and variable", to,
              [](const Op &o, size_t) -> const Dom & { return dom(o.args[0], 2, true); }, {0, 1});
    // strings that are or look like numbers
    static Dom texts;
    {
      std::vector<std::string> cores = {"", "0", "00", "1", "7", "42", "007", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999999",
                                        "0.5", ".5", "5.", ".", "1.5", "3.999999", "1e3", "1e", "1e+", "1E-2", "1e400", "1e39", "3.4028235e38", "3.4028236e38", "1.7976931348623157e308", "1.7976931348623159e308", "0x10", "0x", "inf", "nan", "infinity", "abc", "12abc", "1_0", "1,000", "0.1", "0.30000000000000004", "123456789.123456789"};
      for (auto &blank : std::vector<std::string>{"", " ", "\t\n ", "\v\f\r"})
        for (auto &sign : std::vector<std::string>{"", "-", "+", "--", "- "})
          for (auto &core : cores)
            for (auto &tl : std::vector<std::string>{"", " ", "x", " 9", std::string("\0" "5", 2)}) texts.push_back(Val::str(blank + sign + core + tl));
    }
    gridPhase("from-string", "every string to each numeric type: blanks x signs x 45 number texts (limits, overflow, hex, exponents, inf, nan) x trailers", from,
              [](const Op &, size_t) -> const Dom & { return texts; }, {0, 1});
    int L = mc::thorough() ? 7 : 6;
    mc::phase("from-string-all", "all strings up to length 6 (thorough: 7) over {blank, +, -, 0, 9, ., e, x} to every numeric type", 3, [=](mc::Ctx &c) {
      int n = c.choose(L + 1);
      const char *al = " +-09.ex";
      std::string s;
      int f = c.choose(2);
      c.choose(1);
      for (int i = 0; i < n; ++i) s += al[c.choose(8)];
      Val v = Val::str(s);
      for (auto *o : from) {
        if ((o->code[0] == 0xFC) != f) continue;
        Out w = o->apply(&v);
        Result r = applyCast(*o, v);
        c.steps();
        c.outcome(w.kind == Out::Value ? hashVal(w.v) : 1);
        if (!real::agrees(r, w)) c.fail(showCall(*o, &v, 1) + " gives " + real::show(r) + ", expected " + show(w));
      }
      c.state(mc::hashStr(s, f));
    });
    mc::phase("long-texts", "texts of numbers with n blanks before, n zeros before, n zeros behind the point, n further fractional digits or n characters behind them, n = 0..70 and around the powers of two and ten to 70000, to every numeric type", 2, [=](mc::Ctx &c) {
      static const std::vector<int> big = mc::sizes(71, 65537, {70000});
      int i = c.choose(71 + (int)big.size());
      int n = i <= 70 ? i : big[i - 71];
      static const std::vector<std::string> nums = {"7", "-12", "2147483647", "-2147483648", "2147483648", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "0.5", "-1.25", "1e3", "-3.5e-2", "16777217", "9007199254740993"};
      const std::string &num = c.pick(nums);
      bool neg = num[0] == '-';
      const std::string digits = num.substr(neg), sign = neg ? "-" : "";
      std::vector<std::string> forms = {std::string(n, ' ') + num, std::string(n, '\t') + "+" + digits, sign + std::string(n, '0') + digits, num + std::string(n, ' ') + "9", num + std::string(n, 'x')};
      std::string blanks;
      for (int k = 0; k < n; ++k) blanks += " \t\n\v\f\r"[k % 6];
      forms.push_back(blanks + num);
      if (digits.find_first_of(".e") == std::string::npos) {
        forms.push_back(num + "." + std::string(n, '0'));
        forms.push_back(num + "." + std::string(n, '0') + "5");
        forms.push_back(sign + "0." + std::string(n, '0') + digits);
        forms.push_back(num + "." + std::string(n, '9'));
        forms.push_back(num + "e" + std::string(n, '0') + "2");
        if (n <= 400) forms.push_back(num + std::string(n, '0'));
        if (n <= 70 && n) forms.push_back(num + std::string(n, '0') + "e-" + std::to_string(n));
      }
      for (auto &s : forms) {
        Val v = Val::str(s);
        for (auto *o : from) {
          Out w = o->apply(&v);
          Result r = applyCast(*o, v);
          c.steps();
          c.outcome(w.kind == Out::Value ? hashVal(w.v) : 1);
          if (!real::agrees(r, w)) c.fail(o->name + " of form " + std::to_string(&s - &forms[0]) + " of " + num + " with " + std::to_string(n) + " characters more [" + s.substr(0, 40) + "] gives " + real::show(r) + ", expected " + show(w));
        }
      }
      c.state(mc::hashStr(num, n));
      c.tick();
    });
    mc::phase("round-trip", "number -> string -> number restores integers and booleans exactly and reals to within their text's rounding, over the rich domains and all integers in [-5000, 5000]", 2, [](mc::Ctx &c) {
      T t = std::vector<T>{I32, I64, F32, F64}[c.choose(4)];
      static std::map<int, Dom> ds;
      Dom &d = ds[t];
      if (d.empty()) {
        d = dom(t, 2);
        for (int k = -5000; k <= 5000; ++k) d.push_back(t == I32 ? Val::i32(k) : t == I64 ? Val::i64((int64_t)k * 1000000007LL) : t == F32 ? Val::f32(k / 16.0f) : Val::f64(k / 1000.0));
      }
      const Val &v = c.pick(d);
      for (int k = 0; k < 4; ++k) {
        const Op &a = cst(STR, t, k & 1), &b = cst(t, STR, k & 2);
        Prog p{iVar(t, 0), iOp(a), iOp(b)};
        Bytes bytes = encode(p);
        Code code(bytes);
        expr::Runner r;
        r.Decode(code.data(), code.size());
        expr::Tuple tt{real::toOperand(v)};
        r.BindTuple(&tt);
        Result res = real::run(r);
        c.steps(2);
        Val got;
        bool ok = !res.error && real::readAs(res.v, t, got) && got.t == t;
        if (t == I32 || t == I64) ok = ok && got.i == v.i;
        else {
          double x = asDouble(v), y = asDouble(got);
          if (std::isnan(x)) ok = ok && std::isnan(y);
          else if (std::isinf(x)) ok = ok && x == y;
          else if (t == F64) ok = ok && fabs(x - y) <= 0.5000001e-15 + fabs(x) * 2.3e-16;
          else ok = ok && (fabs(x - y) <= 0.5000001e-15 + fabs(x) * 1.2e-7);
        }
        c.state(mc::mix(hashVal(v), k));
        c.outcome(ok);
        if (!ok && !(res.error && t == F32 && v.f != 0 && fabs(v.f) < 1e-15)) c.fail(show(p) + " on " + show(v) + " gives " + real::show(res));
        if (c.wantSample()) c.sample(show(p) + " on " + show(v) + " = " + real::show(res));
      }
    });
    mc::phase("string-number-string", "canonical text -> number -> text is the identity: all integers in [-3000, 3000], limits and powers of ten, sign variants", 2, [](mc::Ctx &c) {
      T t = c.choose(2) ? I64 : I32;
      static Dom d32, d64;
      if (d32.empty()) {
        for (int k = -3000; k <= 3000; ++k) { d32.push_back(Val::i32(k)); d64.push_back(Val::i64(k)); }
        for (auto &v : dom(I32, 2)) d32.push_back(v);
        for (auto &v : dom(I64, 2)) d64.push_back(v);
        __int128 p = 1;
        for (int k = 0; k < 19; ++k, p *= 10) { d64.push_back(Val::i64((int64_t)p)); d64.push_back(Val::i64(-(int64_t)p)); if (k < 10) { d32.push_back(Val::i32((int32_t)p)); d32.push_back(Val::i32(-(int32_t)p)); } }
      }
      const Val &v = c.pick(t == I32 ? d32 : d64);
      Val text = Val::str(std::to_string((long long)v.i));
      checkProgram(c, {iConst(text, STR), iOp(cst(t, STR)), iOp(cst(STR, t))}, {});
      checkProgram(c, {iVar(STR, 0), iOp(cst(t, STR, true)), iOp(cst(STR, t, true))}, {text});
    });
    mc::phase("real-text", "reals m/2^k and m/10^k, m in [-300, 300], k <= 18, both precisions, to text: 15 fractional digits, trailing zeros removed", 2, [](mc::Ctx &c) {
      int k = c.choose(19);
      int m = c.choose(601) - 300;
      for (double x : {ldexp((double)m, -k), m / pow(10, k), m * pow(10, k), 1e6 + m / pow(10, k)})
        for (T t : {F32, F64}) {
          Val v = t == F32 ? Val::f32((float)x) : Val::f64(x);
          const Op &o = cst(STR, t);
          apply(c, o, &v, 1);
        }
    });
    mc::phase("text-ties", "texts of the exact middle between two neighbouring floats or doubles, and of numbers next above and below it (1 and 20 digits farther): every exponent of single precision, every 5th (thorough: every) of double precision, 8 mantissas, both signs, in fixed and exponent notation", 2, [](mc::Ctx &c) {
      bool dbl = c.choose(2);
      static const uint64_t pat[] = {0, 1, 2, ~0ull, ~0ull - 1, 0xAAAAAAAAAAAAAAAAull, 0x5555555555555555ull, 0x123456789ABCDEFull};
      int e, p = dbl ? 53 : 24;
      if (dbl) { e = c.choose(mc::thorough() ? 2040 : 408) * (mc::thorough() ? 1 : 5) - 1020; } else { e = c.choose(252) - 125; }
      uint64_t m = (pat[c.choose(8)] & ((1ull << (p - 1)) - 1)) | 1ull << (p - 1);
      // (m + 1/2) 2^(e-p+1), exactly
      long double mid = ldexpl((long double)m + 0.5L, e - p + 1);
      static thread_local char buf[1400];
      snprintf(buf, sizeof buf, "%.900Le", mid);
      std::string s = buf;
      size_t x = s.find('e');
      std::string digits = s.substr(0, x), exp = s.substr(x);
      digits.erase(digits.find_last_not_of('0') + 1);
      if (digits.back() == '.') digits += '0';
      std::vector<std::string> ds = {digits};
      for (int k : {0, 1, 20}) {
        ds.push_back(digits + std::string(k, '0') + "1");
        std::string d = digits;
        if (d.back() != '0') { d.back() -= 1; ds.push_back(d + std::string(k + 1, '9')); }
      }
      for (auto &d : ds)
        for (int neg = 0; neg < 2; ++neg)
          for (int fixed = 0; fixed < 2; ++fixed) {
            std::string text = d + exp;
            if (fixed) {
              int ex = atoi(exp.c_str() + 1);
              if (ex < -25 || ex > 60) continue;
              std::string all = d.substr(0, 1) + d.substr(2);
              if (ex < 0) text = "0." + std::string(-ex - 1, '0') + all;
              else if ((int)all.size() <= ex + 1) text = all + std::string(ex + 1 - all.size(), '0');
              else text = all.substr(0, ex + 1) + "." + all.substr(ex + 1);
            }
            Val v = Val::str((neg ? "-" : "") + text);
            for (int k = 0; k < 4; ++k) {
              const Op &o = cst(k & 1 ? F64 : F32, STR, k & 2);
              Out w = o.apply(&v);
              Result r = applyCast(o, v);
              c.steps();
              if (!real::agrees(r, w)) c.fail(showCall(o, &v, 1) + " gives " + real::show(r) + ", expected " + show(w));
            }
          }
      c.state(mc::mix(mc::mix(dbl, m), e));
    });
    mc::phase("bool-text", "booleans to text and back through comparison with the canonical words", 1, [](mc::Ctx &c) {
      Val v = c.choose(2) ? Val::b(true) : Val::b(false);
      checkProgram(c, {iConst(v, BOOL), iOp(cst(STR, BOOL)), iConst(Val::str(v.i ? "true" : "false"), STR), iOp(op("EQ<str>"))}, {});
    });
    mc::phase("string-cast-context", "casts of long and embedded strings inside larger expressions: text built by CONCAT of all pairs of 12 fragments", 2, [](mc::Ctx &c) {
      static std::vector<std::string> f = {"", "1", "-", "23", " ", ".", "5", "e2", "000000000000000000000000000001", "x", "2147483647", "99999999999"};
      const std::string &a = c.pick(f), &b = c.pick(f);
      for (T t : {I32, I64, F32, F64}) {
        checkProgram(c, {iConst(Val::str(a), STR), iVar(STR, 0), iOp(op("CONCAT")), iOp(cst(t, STR))}, {Val::str(b)});
        checkProgram(c, {iConst(Val::str(a), STR), iVar(STR, 0), iOp(op("CONCAT")), iOp(cst(t, STR, true)), iOp(cst(STR, t))}, {Val::str(b)});
      }
    });
  });
}
