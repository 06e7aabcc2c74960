// Reference model of the expression language, written from README.md. Includes nothing of the repository.
#pragma once
#include <errno.h>
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <functional>
#include <limits>
#include <string>
#include <vector>

#include "explore.h"

namespace ref {

enum T : int { NUL = 0, I32 = 1, I64 = 2, BOOL = 3, F32 = 4, F64 = 5, DEC = 6, STR = 7 };
inline const char *tname(int t) {
  static const char *n[] = {"null", "i32", "i64", "bool", "f32", "f64", "dec", "str"};
  return n[t];
}
constexpr T kTypes[] = {I32, I64, BOOL, F32, F64, STR};

struct Val {
  T t = NUL;
  int64_t i = 0;  // I32, I64, BOOL
  float f = 0;
  double d = 0;
  std::string s;
  static Val null() { return Val(); }
  static Val i32(int32_t v) { Val x; x.t = I32; x.i = v; return x; }
  static Val i64(int64_t v) { Val x; x.t = I64; x.i = v; return x; }
  static Val b(bool v) { Val x; x.t = BOOL; x.i = v; return x; }
  static Val f32(float v) { Val x; x.t = F32; x.f = v; return x; }
  static Val f64(double v) { Val x; x.t = F64; x.d = v; return x; }
  static Val str(const std::string &v) { Val x; x.t = STR; x.s = v; return x; }
  bool isNull() const { return t == NUL; }
};

inline uint32_t bitsOf(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
inline uint64_t bitsOf(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }
inline float f32FromBits(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
inline double f64FromBits(uint64_t u) { double f; memcpy(&f, &u, 8); return f; }

// Identity: same type and same value (floats bit for bit, all NaNs alike).
inline bool same(const Val &a, const Val &b) {
  if (a.t != b.t) return false;
  switch (a.t) {
  case NUL: return true;
  case I32: case I64: case BOOL: return a.i == b.i;
  case F32: return bitsOf(a.f) == bitsOf(b.f) || (isnan(a.f) && isnan(b.f));
  case F64: return bitsOf(a.d) == bitsOf(b.d) || (isnan(a.d) && isnan(b.d));
  case STR: return a.s == b.s;
  default: return false;
  }
}

inline uint64_t hashVal(const Val &v, uint64_t h = 7) {
  h = mc::mix(h, v.t);
  switch (v.t) {
  case I32: case I64: case BOOL: return mc::mix(h, (uint64_t)v.i);
  case F32: return mc::mix(h, isnan(v.f) ? 0x7fc00000 : bitsOf(v.f));
  case F64: return mc::mix(h, isnan(v.d) ? 0x7ff8000000000000ULL : bitsOf(v.d));
  case STR: return mc::hashStr(v.s, h);
  default: return h;
  }
}

inline std::string show(const Val &v) {
  char b[64];
  switch (v.t) {
  case NUL: return "null";
  case I32: snprintf(b, sizeof b, "i32:%lld", (long long)v.i); return b;
  case I64: snprintf(b, sizeof b, "i64:%lld", (long long)v.i); return b;
  case BOOL: return v.i ? "true" : "false";
  case F32: snprintf(b, sizeof b, "f32:%.9g(0x%08x)", v.f, bitsOf(v.f)); return b;
  case F64: snprintf(b, sizeof b, "f64:%.17g(0x%016llx)", v.d, (unsigned long long)bitsOf(v.d)); return b;
  case STR: {
    std::string o = "str[" + std::to_string(v.s.size()) + "]:'";
    for (size_t i = 0; i < v.s.size() && i < 80; ++i) {
      unsigned char c = v.s[i];
      if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c;
    }
    return o + (v.s.size() > 80 ? "...'" : "'");
  }
  default: return "?";
  }
}
using Row = std::vector<Val>;
inline std::string show(const Row &r) {
  std::string o = "[";
  for (size_t i = 0; i < r.size(); ++i) o += (i ? ", " : "") + show(r[i]);
  return o + "]";
}
inline bool same(const Row &a, const Row &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false;
  return true;
}
inline uint64_t hashRow(const Row &r, uint64_t h = 11) {
  h = mc::mix(h, r.size());
  for (auto &v : r) h = hashVal(v, h);
  return h;
}

// ---------------------------------------------------------------------------------------------- encoding
using Bytes = std::basic_string<unsigned char>;
inline std::string hex(const Bytes &b) {
  std::string o;
  char x[4];
  for (unsigned char c : b) { snprintf(x, sizeof x, "%02X", c); o += x; }
  return o;
}
inline void putVarint(Bytes &b, uint64_t v) {
  while (v >= 0x80) { b.push_back((unsigned char)(v | 0x80)); v >>= 7; }
  b.push_back((unsigned char)v);
}
inline Bytes encConst(const Val &v) {
  Bytes b;
  switch (v.t) {
  case I32: case I64: {
    bool neg = v.i < 0;
    b.push_back((neg ? 0x20 : 0x10) | v.t);
    putVarint(b, neg ? 0 - (uint64_t)v.i : (uint64_t)v.i);
    break;
  }
  case BOOL: b.push_back((v.i ? 0x10 : 0x20) | BOOL); break;
  case F32: { b.push_back(0x14); uint32_t u = bitsOf(v.f); for (int k = 24; k >= 0; k -= 8) b.push_back((unsigned char)(u >> k)); break; }
  case F64: { b.push_back(0x15); uint64_t u = bitsOf(v.d); for (int k = 56; k >= 0; k -= 8) b.push_back((unsigned char)(u >> k)); break; }
  case STR: b.push_back(0x17); putVarint(b, v.s.size()); b.append((const unsigned char *)v.s.data(), v.s.size()); break;
  default: break;
  }
  return b;
}
inline Bytes encNull(T t) { return Bytes(1, (unsigned char)t); }
inline Bytes encVar(T t, uint32_t index) { Bytes b(1, (unsigned char)(0x30 | t)); putVarint(b, index); return b; }
// A literal: NULL of type t, or the constant.
inline Bytes encLit(const Val &v, T t) { return v.isNull() ? encNull(t) : encConst(v); }

// ---------------------------------------------------------------------------------------------- operators
struct Out {
  enum Kind { Value, Error, Any } kind = Value;  // Any: not specified, only must not crash
  Val v;
  int ulp = 0;  // tolerance for math functions
  static Out of(const Val &v) { Out o; o.v = v; return o; }
  static Out error() { Out o; o.kind = Error; return o; }
  static Out any() { Out o; o.kind = Any; return o; }
};
inline std::string show(const Out &o) { return o.kind == Out::Value ? show(o.v) : o.kind == Out::Error ? "<error>" : "<unspecified>"; }

inline bool ulpClose(double a, double b, int ulp) {
  if (isnan(a) && isnan(b)) return true;
  if (a == b) return true;
  if (isnan(a) || isnan(b) || isinf(a) || isinf(b)) return false;
  int64_t x = (int64_t)bitsOf(a), y = (int64_t)bitsOf(b);
  if (x < 0) x = INT64_MIN - x;
  if (y < 0) y = INT64_MIN - y;
  int64_t d = x > y ? x - y : y - x;
  return d >= 0 && d <= ulp;
}
inline bool matches(const Out &o, const Val &got) {
  if (o.kind != Out::Value) return o.kind == Out::Any;
  if (o.ulp && o.v.t == F64 && got.t == F64) return ulpClose(o.v.d, got.d, o.ulp);
  return same(o.v, got);
}

struct Op {
  std::string name;
  Bytes code;
  std::vector<T> args;
  T ret;
  std::function<Out(const Val *)> f;  // applied to the operands in written order
  bool strict;                        // NULL operand => NULL
  Out apply(const Val *a) const {
    if (strict)
      for (size_t i = 0; i < args.size(); ++i) if (a[i].isNull()) return Out::of(Val());
    return f(a);
  }
};

inline int64_t wrap(T t, __int128 v) { return t == I32 ? (int64_t)(int32_t)(uint32_t)(uint64_t)v : (int64_t)(uint64_t)v; }
inline Val mkInt(T t, __int128 v) { return t == I32 ? Val::i32((int32_t)wrap(t, v)) : Val::i64(wrap(t, v)); }

inline double asDouble(const Val &v) { return v.t == F32 ? (double)v.f : v.t == F64 ? v.d : (double)v.i; }

// Order of two values of one type: -1, 0, 1, or 2 when unordered.
inline int cmp(const Val &a, const Val &b) {
  switch (a.t) {
  case I32: case I64: case BOOL: return a.i < b.i ? -1 : a.i > b.i ? 1 : 0;
  case F32: case F64: { double x = asDouble(a), y = asDouble(b); if (isnan(x) || isnan(y)) return 2; return x < y ? -1 : x > y ? 1 : 0; }
  case STR: {
    size_t n = a.s.size() < b.s.size() ? a.s.size() : b.s.size();
    for (size_t i = 0; i < n; ++i) {
      unsigned char x = a.s[i], y = b.s[i];
      if (x != y) return x < y ? -1 : 1;
    }
    return a.s.size() < b.s.size() ? -1 : a.s.size() > b.s.size() ? 1 : 0;
  }
  default: return 2;
  }
}

inline double roundHalfAway(double v) {
  double r = trunc(v), fr = v - r;
  if (fr >= 0.5) r += 1;
  if (fr <= -0.5) r -= 1;
  return r;
}
inline bool fits(T t, double r) {
  if (isnan(r)) return false;
  return t == I32 ? (r >= -2147483648.0 && r <= 2147483647.0) : (r >= -9223372036854775808.0 && r < 9223372036854775808.0);
}

inline bool blank(unsigned char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

inline Out parseInt(T t, const std::string &s) {
  size_t i = 0;
  while (i < s.size() && blank(s[i])) ++i;
  bool neg = false;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
  if (i >= s.size() || s[i] < '0' || s[i] > '9') return Out::of(mkInt(t, 0));
  __int128 v = 0, lim = t == I32 ? ((__int128)1 << 31) : ((__int128)1 << 63);
  bool over = false;
  for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) {
    if (!over) v = v * 10 + (s[i] - '0');
    if (v > lim) over = true;
  }
  if (over || (!neg && v >= lim)) return Out::error();
  return Out::of(mkInt(t, neg ? -v : v));
}
inline Out parseReal(T t, const std::string &s) {
  const char *p = s.c_str();
  char *e;
  errno = 0;
  double d = 0;
  float f = 0;
  if (t == F32) f = strtof(p, &e); else d = strtod(p, &e);
  if (e == p) return Out::of(t == F32 ? Val::f32(0) : Val::f64(0));
  if (errno == ERANGE) {
    if (t == F32 ? isinf(f) : isinf(d)) return Out::error();
    return Out::any();  // underflow
  }
  return Out::of(t == F32 ? Val::f32(f) : Val::f64(d));
}
inline std::string realText(double v) {
  char b[512];
  snprintf(b, sizeof b, "%.15f", v);
  std::string s = b;
  if (s.find('.') == std::string::npos) return s;  // inf, nan
  while (s.back() == '0') s.pop_back();
  if (s.back() == '.') s += '0';
  return s;
}

inline Out cast(T d, const Val &v, bool check) {
  switch (d) {
  case I32: case I64:
    switch (v.t) {
    case BOOL: return Out::of(mkInt(d, v.i));
    case I32: return Out::of(mkInt(d, v.i));
    case I64:
      if (d == I32 && check && (v.i < INT32_MIN || v.i > INT32_MAX)) return Out::error();
      return Out::of(mkInt(d, v.i));
    case F32: case F64: {
      double r = roundHalfAway(asDouble(v));
      if (!fits(d, r)) return check ? Out::error() : Out::any();
      return Out::of(mkInt(d, (__int128)r));
    }
    case STR: return parseInt(d, v.s);
    default: return Out::any();
    }
  case BOOL:
    switch (v.t) {
    case BOOL: case I32: case I64: return Out::of(Val::b(v.i != 0));
    case F32: case F64: return Out::of(Val::b(!(asDouble(v) == 0)));
    default: return Out::any();
    }
  case F32:
    switch (v.t) {
    case BOOL: case I32: case I64: return Out::of(Val::f32((float)v.i));
    case F32: return Out::of(v);
    case F64: return Out::of(Val::f32((float)v.d));
    case STR: return parseReal(F32, v.s);
    default: return Out::any();
    }
  case F64:
    switch (v.t) {
    case BOOL: case I32: case I64: return Out::of(Val::f64((double)v.i));
    case F32: return Out::of(Val::f64(v.f));
    case F64: return Out::of(v);
    case STR: return parseReal(F64, v.s);
    default: return Out::any();
    }
  case STR:
    switch (v.t) {
    case BOOL: return Out::of(Val::str(v.i ? "true" : "false"));
    case I32: case I64: return Out::of(Val::str(std::to_string((long long)v.i)));
    case F32: case F64: return Out::of(Val::str(realText(asDouble(v))));
    case STR: return Out::of(v);
    default: return Out::any();
    }
  default: return Out::any();
  }
}

// Characters [from, to) of s, positions clamped.
inline std::string slice(const std::string &s, int64_t from, int64_t to) {
  int64_t n = (int64_t)s.size();
  if (from < 0) from = 0;
  if (to > n) to = n;
  std::string o;
  for (int64_t i = from; i < to; ++i) o.push_back(s[i]);
  return o;
}
inline std::string mid(const std::string &s, int64_t start, int64_t len) {
  int64_t n = (int64_t)s.size();
  if (len <= 0 || start == 0 || start > n || start < -n) return "";
  int64_t from = start > 0 ? start - 1 : n + start;
  return slice(s, from, from + len);
}

inline std::vector<Op> makeOps() {
  std::vector<Op> ops;
  auto two = [](int a, int b) { Bytes c; c.push_back((unsigned char)a); c.push_back((unsigned char)b); return c; };
  auto add = [&](std::string n, Bytes c, std::vector<T> args, T ret, std::function<Out(const Val *)> f, bool strict = true) {
    ops.push_back({n, c, args, ret, f, strict});
  };
  for (T t : {I32, I64}) {
    std::string s = std::string("<") + tname(t) + ">";
    __int128 lo = t == I32 ? -((__int128)1 << 31) : -((__int128)1 << 63);
    add("POS" + s, two(0x81, t), {t}, t, [=](const Val *a) { return Out::of(a[0]); });
    add("NEG" + s, two(0x82, t), {t}, t, [=](const Val *a) { return Out::of(mkInt(t, -(__int128)a[0].i)); });
    add("ADD" + s, two(0x83, t), {t, t}, t, [=](const Val *a) { return Out::of(mkInt(t, (__int128)a[0].i + a[1].i)); });
    add("SUB" + s, two(0x84, t), {t, t}, t, [=](const Val *a) { return Out::of(mkInt(t, (__int128)a[0].i - a[1].i)); });
    add("MUL" + s, two(0x85, t), {t, t}, t, [=](const Val *a) { return Out::of(mkInt(t, (__int128)a[0].i * a[1].i)); });
    add("DIV" + s, two(0x86, t), {t, t}, t, [=](const Val *a) { return a[1].i ? Out::of(mkInt(t, (__int128)a[0].i / a[1].i)) : Out::of(Val()); });
    add("MOD" + s, two(0x87, t), {t, t}, t, [=](const Val *a) { return a[1].i ? Out::of(mkInt(t, (__int128)a[0].i % a[1].i)) : Out::of(Val()); });
    add("ABS" + s, two(0xB3, t), {t}, t, [=](const Val *a) { return Out::of(mkInt(t, a[0].i < 0 ? -(__int128)a[0].i : (__int128)a[0].i)); });
    add("ABS_C" + s, two(0xB4, t), {t}, t, [=](const Val *a) { return a[0].i == lo ? Out::error() : Out::of(mkInt(t, a[0].i < 0 ? -(__int128)a[0].i : (__int128)a[0].i)); });
  }
  for (T t : {F32, F64}) {
    std::string s = std::string("<") + tname(t) + ">";
    bool sg = t == F32;
    auto un = [=](std::function<double(double)> g) { return [=](const Val *a) { return Out::of(sg ? Val::f32((float)g(a[0].f)) : Val::f64(g(a[0].d))); }; };
    add("POS" + s, two(0x81, t), {t}, t, un([](double x) { return x; }));
    add("NEG" + s, two(0x82, t), {t}, t, un([](double x) { return f64FromBits(bitsOf(x) ^ (1ULL << 63)); }));
    add("ADD" + s, two(0x83, t), {t, t}, t, [=](const Val *a) { volatile float x = a[0].f, y = a[1].f; volatile double u = a[0].d, v = a[1].d; return Out::of(sg ? Val::f32(x + y) : Val::f64(u + v)); });
    add("SUB" + s, two(0x84, t), {t, t}, t, [=](const Val *a) { volatile float x = a[0].f, y = a[1].f; volatile double u = a[0].d, v = a[1].d; return Out::of(sg ? Val::f32(x - y) : Val::f64(u - v)); });
    add("MUL" + s, two(0x85, t), {t, t}, t, [=](const Val *a) { volatile float x = a[0].f, y = a[1].f; volatile double u = a[0].d, v = a[1].d; return Out::of(sg ? Val::f32(x * y) : Val::f64(u * v)); });
    add("DIV" + s, two(0x86, t), {t, t}, t, [=](const Val *a) {
      volatile float x = a[0].f, y = a[1].f; volatile double u = a[0].d, v = a[1].d;
      if (sg ? y == 0 : v == 0) return Out::of(Val());
      return Out::of(sg ? Val::f32(x / y) : Val::f64(u / v)); });
    add("ABS" + s, two(0xB3, t), {t}, t, un([](double x) { return f64FromBits(bitsOf(x) & ~(1ULL << 63)); }));
    add("ABS_C" + s, two(0xB4, t), {t}, t, un([](double x) { return f64FromBits(bitsOf(x) & ~(1ULL << 63)); }));
  }
  add("ADD<str>", two(0x83, STR), {STR, STR}, STR, [](const Val *a) { return Out::of(Val::str(a[0].s + a[1].s)); });
  for (T t : kTypes) {
    std::string s = std::string("<") + tname(t) + ">";
    auto rel = [&](const char *n, int c, std::function<bool(int)> p) { add(n + s, two(c, t), {t, t}, BOOL, [=](const Val *a) { return Out::of(Val::b(p(cmp(a[0], a[1])))); }); };
    rel("EQ", 0x91, [](int c) { return c == 0; });
    rel("GE", 0x92, [](int c) { return c == 0 || c == 1; });
    rel("GT", 0x93, [](int c) { return c == 1; });
    rel("LE", 0x94, [](int c) { return c == 0 || c == -1; });
    rel("LT", 0x95, [](int c) { return c == -1; });
    rel("NE", 0x96, [](int c) { return c != 0; });
    auto mm = [&](const char *n, int c, int want) {
      add(n + s, two(c, t), {t, t}, t, [=](const Val *a) {
        int k = cmp(a[0], a[1]);
        if (k == 2) return Out::any();                       // NaN: not specified
        if (k == 0 && !same(a[0], a[1])) return Out::any();  // +0 / -0: either
        return Out::of(k == want ? a[0] : a[1]); });
    };
    mm("MIN", 0xB1, -1);
    mm("MAX", 0xB2, 1);
    auto truth = [t](const Val &v) { return v.isNull() ? -1 : t == STR ? 0 : t == F32 || t == F64 ? !(asDouble(v) == 0) : v.i != 0; };
    add("IS_NULL" + s, two(0xA1, t), {t}, BOOL, [](const Val *a) { return Out::of(Val::b(a[0].isNull())); }, false);
    add("IS_TRUE" + s, two(0xA2, t), {t}, BOOL, [=](const Val *a) { if (t == STR && !a[0].isNull()) return Out::any(); return Out::of(Val::b(truth(a[0]) == 1)); }, false);
    add("IS_FALSE" + s, two(0xA3, t), {t}, BOOL, [=](const Val *a) { if (t == STR && !a[0].isNull()) return Out::any(); return Out::of(Val::b(truth(a[0]) == 0)); }, false);
  }
  auto tri = [](const Val &v) { return v.isNull() ? -1 : (int)v.i; };
  auto mk3 = [](int x) { return Out::of(x < 0 ? Val() : Val::b(x)); };
  add("NOT", Bytes(1, 0x51), {BOOL}, BOOL, [=](const Val *a) { int x = tri(a[0]); return mk3(x < 0 ? -1 : !x); }, false);
  add("AND", Bytes(1, 0x52), {BOOL, BOOL}, BOOL, [=](const Val *a) { int x = tri(a[0]), y = tri(a[1]); return mk3(x == 0 || y == 0 ? 0 : x == 1 && y == 1 ? 1 : -1); }, false);
  add("OR", Bytes(1, 0x53), {BOOL, BOOL}, BOOL, [=](const Val *a) { int x = tri(a[0]), y = tri(a[1]); return mk3(x == 1 || y == 1 ? 1 : x == 0 && y == 0 ? 0 : -1); }, false);
  for (bool chk : {false, true})
    for (T d : kTypes)
      for (T s : kTypes) {
        if (d == s || (d == BOOL && s == STR)) continue;
        add(std::string(chk ? "CAST_C<" : "CAST<") + tname(d) + "," + tname(s) + ">", two(chk ? 0xFC : 0xF0, d << 4 | s), {s}, d,
            [=](const Val *a) { return cast(d, a[0], chk); });
      }
  auto fn = [&](const char *n, int c, double (*g)(double), int ulp) {
    add(n, two(0xF1, c), {F64}, F64, [=](const Val *a) { volatile double x = a[0].d; Out o = Out::of(Val::f64(g(x))); o.ulp = ulp; return o; });
  };
  fn("CEIL", 0x01, ::ceil, 0);
  fn("FLOOR", 0x02, ::floor, 0);
  fn("SIN", 0x07, ::sin, 2);
  fn("COS", 0x08, ::cos, 2);
  fn("TAN", 0x09, ::tan, 2);
  fn("ASIN", 0x0A, ::asin, 2);
  fn("ACOS", 0x0B, ::acos, 2);
  fn("ATAN", 0x0C, ::atan, 2);
  fn("SINH", 0x0D, ::sinh, 2);
  fn("COSH", 0x0E, ::cosh, 2);
  fn("TANH", 0x0F, ::tanh, 2);
  fn("EXP", 0x10, ::exp, 2);
  fn("LOG", 0x11, ::log, 2);
  auto sf = [&](const char *n, int c, std::vector<T> args, std::function<std::string(const Val *)> g) {
    add(n, two(0xF1, c), args, STR, [=](const Val *a) { return Out::of(Val::str(g(a))); });
  };
  auto casemap = [](const std::string &s, char lo, char hi, int d) { std::string o; for (char c : s) o += (c >= lo && c <= hi) ? (char)(c + d) : c; return o; };
  auto trim = [](const std::string &s, bool l, bool r) {
    size_t b = 0, e = s.size();
    if (l) while (b < e && blank(s[b])) ++b;
    if (r) while (e > b && blank(s[e - 1])) --e;
    return slice(s, (int64_t)b, (int64_t)e);
  };
  sf("CONCAT", 0x21, {STR, STR}, [](const Val *a) { return a[0].s + a[1].s; });
  sf("LOWER", 0x22, {STR}, [=](const Val *a) { return casemap(a[0].s, 'A', 'Z', 32); });
  sf("UPPER", 0x23, {STR}, [=](const Val *a) { return casemap(a[0].s, 'a', 'z', -32); });
  sf("LEFT", 0x24, {STR, I32}, [](const Val *a) { return slice(a[0].s, 0, a[1].i); });
  sf("RIGHT", 0x25, {STR, I32}, [](const Val *a) { return slice(a[0].s, (int64_t)a[0].s.size() - (a[1].i < 0 ? 0 : a[1].i), (int64_t)a[0].s.size()); });
  sf("TRIM", 0x26, {STR}, [=](const Val *a) { return trim(a[0].s, true, true); });
  sf("LTRIM", 0x28, {STR}, [=](const Val *a) { return trim(a[0].s, true, false); });
  sf("RTRIM", 0x2A, {STR}, [=](const Val *a) { return trim(a[0].s, false, true); });
  sf("SUBSTR3", 0x2C, {STR, I32, I32}, [](const Val *a) { return slice(a[0].s, a[1].i, a[2].i); });
  sf("SUBSTR2", 0x2D, {STR, I32}, [](const Val *a) { return slice(a[0].s, a[1].i, (int64_t)a[0].s.size()); });
  sf("MID3", 0x2E, {STR, I32, I32}, [](const Val *a) { return mid(a[0].s, a[1].i, a[2].i); });
  sf("MID2", 0x2F, {STR, I32}, [](const Val *a) { return mid(a[0].s, a[1].i, (int64_t)1 << 40); });
  return ops;
}
inline const std::vector<Op> &ops() {
  static const std::vector<Op> o = makeOps();
  return o;
}
inline const Op &op(const std::string &name) {
  for (auto &o : ops()) if (o.name == name) return o;
  fprintf(stderr, "no operator %s\n", name.c_str());
  abort();
}

// ---------------------------------------------------------------------------------------------- value domains
inline std::vector<Val> ints(T t, int level) {
  // level 0: a handful; 1: boundary; 2: every power of two +-2, both signs, and small/odd values
  std::vector<__int128> v;
  int w = t == I32 ? 32 : 64;
  __int128 lo = -((__int128)1 << (w - 1)), hi = -lo - 1;
  if (level == 0) v = {0, 1, -1, 7, hi, lo};
  else if (level == 1) v = {0, 1, -1, 2, -2, 3, -3, 5, 7, -7, 10, 100, 127, 128, -128, 255, 256, 32767, 32768, 46340, 46341, -46341, 65535, 65536, 1000003, hi / 2, hi / 2 + 1, hi - 1, hi, lo, lo + 1, lo / 2};
  else {
    for (int k = 0; k < w; ++k)
      for (int d = -2; d <= 2; ++d) { v.push_back(((__int128)1 << k) + d); v.push_back(-((__int128)1 << k) + d); }
    for (int k = -20; k <= 20; ++k) v.push_back(k);
    for (__int128 x : {10, 100, 1000, 10000, 46340, 46341, 1000000, 123456789}) { v.push_back(x); v.push_back(-x); }
    if (t == I64) for (__int128 x : {(__int128)3037000499LL, (__int128)3037000500LL, (__int128)1000000007LL * 1000000009LL}) { v.push_back(x); v.push_back(-x); }
  }
  std::vector<Val> o;
  for (auto x : v) {
    if (x < lo || x > hi) continue;
    Val c = mkInt(t, x);
    bool dup = false;
    for (auto &e : o) if (e.i == c.i) dup = true;
    if (!dup) o.push_back(c);
  }
  return o;
}
inline std::vector<Val> reals(T t, int level) {
  std::vector<double> v;
  if (level == 0) v = {0.0, 1.5, -2.25, 1e10};
  else {
    v = {0.0, -0.0, 1, -1, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 0.1, -0.1, 0.3, 1.0 / 3, 2, 3, 10, 100, 1e10, -1e10, 123456.789, 1e-5, 1e-10, 7.8,
         16777215, 16777216, 16777217, 2147483646.5, 2147483647, 2147483647.5, 2147483648.0, -2147483648.0, -2147483648.5, -2147483649.0, 4294967296.0, 9007199254740992.0, 9223372036854774784.0, 9223372036854775808.0, -9223372036854775808.0, -9223372036854777856.0, 1e19, 1e30, -1e30};
    double inf = INFINITY;
    v.push_back(inf); v.push_back(-inf); v.push_back(NAN);
    if (t == F32) {
      for (double x : {(double)__FLT_MAX__, (double)__FLT_MIN__, (double)__FLT_DENORM_MIN__, (double)__FLT_EPSILON__}) { v.push_back(x); v.push_back(-x); }
      v.push_back(0.49999997f); v.push_back(8388607.5f); v.push_back(2147483520.0); v.push_back(-2147483904.0);
    } else {
      for (double x : {__DBL_MAX__, __DBL_MIN__, __DBL_DENORM_MIN__, __DBL_EPSILON__, (double)__FLT_MAX__, (double)__FLT_DENORM_MIN__}) { v.push_back(x); v.push_back(-x); }
      v.push_back(0.49999999999999994); v.push_back(4503599627370495.5); v.push_back(2147483647.4999998); v.push_back(-2147483648.4999995); v.push_back(1e300); v.push_back(1e-300); v.push_back(M_PI); v.push_back(M_PI / 2); v.push_back(M_E);
    }
    if (level >= 2) {
      int lo = t == F32 ? -149 : -1074, hi = t == F32 ? 127 : 1023, stepk = t == F32 ? 1 : 5;
      for (int k = lo; k <= hi; k += stepk) { double x = ldexp(1.0, k); v.push_back(x); v.push_back(-x); v.push_back(x * 1.5); }
      for (int k = 28; k <= 34; ++k) for (double d : {-1.5, -1.0, -0.5, -0.25, 0.25, 0.5, 1.0, 1.5}) { v.push_back(ldexp(1.0, k) + d); v.push_back(-ldexp(1.0, k) + d); }
      for (int k = -40; k <= 40; ++k) v.push_back(k * 0.25);
    }
  }
  std::vector<Val> o;
  for (double x : v) {
    Val c = t == F32 ? Val::f32((float)x) : Val::f64(x);
    bool dup = false;
    for (auto &e : o) if (same(e, c)) dup = true;
    if (!dup) o.push_back(c);
  }
  return o;
}
inline std::vector<Val> strings(int level) {
  std::vector<std::string> v;
  if (level == 0) v = {"", "abc", " x ", "12"};
  else {
    v = {"", "a", "b", "A", "aa", "ab", "abc", "abd", "ABC", "aBc", " ", "  ", " a", "a ", " a b ", "\t\n x\r", "0", "-1", "12", "9a", "-7.5e1x", "1e3", "true", std::string("a\0b", 3), std::string("\0", 1), "\xc3\xa9", "\xff", "\x80z", "z",
         "0123456789abcde", "0123456789abcdef", "0123456789abcdefg"};
    v.push_back(std::string(127, 'x'));
    v.push_back(std::string(128, 'y'));
    v.push_back(" " + std::string(300, 'q') + " ");
  }
  std::vector<Val> o;
  for (auto &s : v) o.push_back(Val::str(s));
  return o;
}
inline std::vector<Val> domain(T t, int level) {
  switch (t) {
  case I32: case I64: return ints(t, level);
  case F32: case F64: return reals(t, level);
  case BOOL: return {Val::b(false), Val::b(true)};
  case STR: return strings(level);
  default: return {};
  }
}
inline std::vector<Val> withNull(std::vector<Val> v) { v.insert(v.begin(), Val()); return v; }

// ---------------------------------------------------------------------------------------------- programs
// Evaluation of an abstract postfix program by the reference.
struct Instr {
  enum K { Const, Null, Var, Apply } k;
  Val v;           // Const
  T t = NUL;       // Null, Var
  int index = 0;   // Var
  const Op *op = nullptr;
};
inline Instr iConst(const Val &v, T t) { Instr i; i.k = v.isNull() ? Instr::Null : Instr::Const; i.v = v; i.t = t; return i; }
inline Instr iVar(T t, int index) { Instr i; i.k = Instr::Var; i.t = t; i.index = index; return i; }
inline Instr iOp(const Op &o) { Instr i; i.k = Instr::Apply; i.op = &o; return i; }
using Prog = std::vector<Instr>;

inline Bytes encode(const Prog &p) {
  Bytes b;
  for (auto &i : p) switch (i.k) {
    case Instr::Const: b += encConst(i.v); break;
    case Instr::Null: b += encNull(i.t); break;
    case Instr::Var: b += encVar(i.t, i.index); break;
    case Instr::Apply: b += i.op->code; break;
  }
  return b;
}
inline std::string show(const Prog &p) {
  std::string o;
  for (auto &i : p) {
    if (!o.empty()) o += ' ';
    switch (i.k) {
    case Instr::Const: o += show(i.v); break;
    case Instr::Null: o += std::string("null<") + tname(i.t) + ">"; break;
    case Instr::Var: o += "$" + std::to_string(i.index); break;
    case Instr::Apply: o += i.op->name; break;
    }
  }
  return o;
}
struct Eval {
  Out::Kind kind = Out::Value;
  Row stack;           // bottom first
  int ulp = 0;
};
inline Eval eval(const Prog &p, const Row *tuple, mc::Ctx *c = nullptr) {
  Eval e;
  for (auto &i : p) {
    switch (i.k) {
    case Instr::Const: e.stack.push_back(i.v); break;
    case Instr::Null: e.stack.push_back(Val()); break;
    case Instr::Var:
      if (!tuple) { e.kind = Out::Error; return e; }
      e.stack.push_back((*tuple)[i.index]);
      break;
    case Instr::Apply: {
      size_t n = i.op->args.size();
      if (e.stack.size() < n) { e.kind = Out::Error; return e; }
      Out o = i.op->apply(&e.stack[e.stack.size() - n]);
      if (o.kind != Out::Value) { e.kind = o.kind; return e; }
      e.stack.resize(e.stack.size() - n);
      e.stack.push_back(o.v);
      if (o.ulp) e.ulp = o.ulp;
      break;
    }
    }
    if (c) c->state(hashRow(e.stack));
  }
  return e;
}

}  // namespace ref
