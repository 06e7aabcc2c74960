// U01: value holders.
#include <sstream>

#include "exprcheck.h"
using namespace ec;
namespace ad = dingodb::expr::any_optional_data_adaptor;
using expr::Operand;

static bool finite(const Val &v) { return !((v.t == F32 || v.t == F64) && isnan(asDouble(v))); }
static bool equal(const Val &a, const Val &b) { return a.t == b.t && (a.isNull() || cmp(a, b) == 0); }
static size_t hashOf(const Operand &o) { return std::hash<Operand>()(o); }
static size_t hashOf(const expr::Tuple &t) { return std::hash<expr::Tuple>()(t); }

static std::any toAny(const Operand &o, T t) {
  switch (t) {
  case I32: return ad::FromOperand<int32_t>(o);
  case I64: return ad::FromOperand<int64_t>(o);
  case BOOL: return ad::FromOperand<bool>(o);
  case F32: return ad::FromOperand<float>(o);
  case F64: return ad::FromOperand<double>(o);
  default: return ad::FromOperand<expr::String::ValueType>(o);
  }
}
template <typename X>
static std::any anyOf(bool null, const X &x) { return null ? std::make_any<std::optional<X>>(std::optional<X>()) : std::make_any<std::optional<X>>(std::optional<X>(x)); }
static std::any toAnyRef(const Val &v, T t) {
  bool n = v.isNull();
  switch (t) {
  case I32: return anyOf<int32_t>(n, (int32_t)v.i);
  case I64: return anyOf<int64_t>(n, v.i);
  case BOOL: return anyOf<bool>(n, (bool)v.i);
  case F32: return anyOf<float>(n, v.f);
  case F64: return anyOf<double>(n, v.d);
  default: return anyOf<expr::String::ValueType>(n, std::make_shared<std::string>(v.s));
  }
}
static Operand fromAny(const std::any &a, T t) {
  switch (t) {
  case I32: return ad::ToOperand<int32_t>(a);
  case I64: return ad::ToOperand<int64_t>(a);
  case BOOL: return ad::ToOperand<bool>(a);
  case F32: return ad::ToOperand<float>(a);
  case F64: return ad::ToOperand<double>(a);
  default: return ad::ToOperand<expr::String::ValueType>(a);
  }
}
template <typename X>
static bool anyHolds(const std::any &a, bool null, const X &x) {
  const auto *o = std::any_cast<std::optional<X>>(&a);
  if (!o || o->has_value() == null) return false;
  return null || memcmp(&**o, &x, sizeof x) == 0;
}
static bool anyIs(const std::any &a, const Val &v, T t) {
  bool n = v.isNull();
  switch (t) {
  case I32: return anyHolds<int32_t>(a, n, (int32_t)v.i);
  case I64: return anyHolds<int64_t>(a, n, v.i);
  case BOOL: return anyHolds<bool>(a, n, (bool)v.i);
  case F32: return anyHolds<float>(a, n, v.f);
  case F64: return anyHolds<double>(a, n, v.d);
  default: {
    const auto *o = std::any_cast<std::optional<expr::String::ValueType>>(&a);
    return o && o->has_value() == !n && (n || (**o && ***o == v.s));
  }
  }
}

static std::vector<Val> g_all, g_some;

int main(int argc, char **argv) {
  return mc::mcMain(argc, argv, [] {
    bool th = mc::thorough();
    g_all.push_back(Val());
    for (T t : kTypes) for (auto &v : domain(t, th ? 2 : 1)) g_all.push_back(v);
    for (T t : {I32, I64}) for (auto &v : ints(t, 2)) g_all.push_back(v);
    g_some = {Val(), Val::i32(0), Val::i32(1), Val::i64(0), Val::i64(1), Val::b(false), Val::b(true), Val::f32(0), Val::f64(-0.0), Val::f64(0), Val::f64(1), Val::str(""), Val::str("a"), Val::str(std::string("a\0", 2)), Val::str("null")};
    mc::phase("values", "every value of the extended domains of the six types and NULL: held exactly, not readable as another type, equal to a copy and with equal hash, printed as its decimal text or content, converted to and from the optional representation", 1, [](mc::Ctx &c) {
      const Val &v = c.pick(g_all);
      Operand o = real::toOperand(v);
      c.steps();
      c.state(hashVal(v));
      std::string w = show(v);
      Val got;
      if (v.isNull() ? !(o == nullptr) : !real::readAs(o, v.t, got) || !same(got, v)) c.fail(w + " is held as " + show(real::fromOperand(o)));
      if ((o == nullptr) != v.isNull() || (o != nullptr) == v.isNull()) c.fail(w + ": comparison with nullptr is wrong");
      if (!v.isNull())
        for (T t : kTypes) {
          if (t == v.t) continue;
          if (real::readAs(o, t, got)) c.fail(w + " can be read as " + tname(t));
        }
      Operand copy(o), asg, moved;
      asg = o;
      moved = std::move(copy);
      for (const Operand *p : {&asg, &moved}) {
        if (finite(v) && (!(*p == o) || *p != o)) c.fail(w + " is not equal to its copy");
        if (finite(v) && hashOf(*p) != hashOf(o)) c.fail(w + " and its copy have different hashes");
        if (!v.isNull() && (!real::readAs(*p, v.t, got) || !same(got, v))) c.fail("a copy of " + w + " is " + show(real::fromOperand(*p)));
      }
      if (v.t != F32 && v.t != F64) {
        std::ostringstream os;
        os << o;
        std::string want = v.isNull() ? "(null)" : v.t == STR ? v.s : std::to_string((long long)v.i);
        if (os.str() != want) c.fail(w + " is printed as '" + os.str() + "', expected '" + want + "'");
      } else if (finite(v) && !isinf(asDouble(v)) && asDouble(v) != 0 && std::abs(asDouble(v)) > 1e-30) {
        std::ostringstream os;
        os << o;
        double d = strtod(os.str().c_str(), nullptr);
        if (!(std::abs(d - asDouble(v)) <= 1e-5 * std::abs(asDouble(v)))) c.fail(w + " is printed as '" + os.str() + "'");
      }
      for (T t : kTypes) {
        if (!v.isNull() && t != v.t) continue;
        std::any a = toAny(o, t);
        if (!anyIs(a, v, t)) c.fail(w + " is not converted to an optional " + tname(t) + " of that value");
        Operand back = fromAny(a, t), fresh = fromAny(toAnyRef(v, t), t);
        for (const Operand *p : {&back, &fresh})
          if (v.isNull() ? !(*p == nullptr) : !real::readAs(*p, v.t, got) || !same(got, v)) c.fail(w + " converted to an optional " + tname(t) + " and back is " + show(real::fromOperand(*p)));
      }
    });
    mc::phase("pairs", "all ordered pairs of these values: equal exactly if of one type and equal, inequality its negation, equal ones with equal hashes", 1, [](mc::Ctx &c) {
      const Val &v = c.pick(g_all);
      Operand a = real::toOperand(v);
      for (auto &u : g_all) {
        Operand b = real::toOperand(u);
        bool want = equal(v, u);
        c.steps();
        if ((a == b) != want || (a != b) == want) c.fail(show(v) + " and " + show(u) + " compare " + (a == b ? "equal" : "different") + (a != b ? " (and unequal)" : " (and not unequal)") + ", expected " + (want ? "equal" : "different"));
        if (want && hashOf(a) != hashOf(b)) c.fail("equal values " + show(v) + " and " + show(u) + " have different hashes");
        c.state(mc::mix(hashVal(v), hashVal(u)));
        c.outcome(want);
      }
      c.exec(g_all.size() - 1);
    });
    mc::phase("tuples", "all pairs of tuples of up to 2 values from 15 (thorough: 3 against 2 and 3): equality and hashes, lookup in a hash map", 2, [](mc::Ctx &c) {
      int n = c.choose(3);
      Row a;
      if (n == 0) c.choose(1);
      for (int i = 0; i < n; ++i) a.push_back(c.pick(g_some));
      expr::Tuple ta = real::toTuple(a);
      std::unordered_map<expr::Tuple, int> m;
      m[ta] = 1;
      int k = (int)g_some.size();
      for (int len = 0; len <= (mc::thorough() ? 3 : 2); ++len) {
        int total = 1;
        for (int i = 0; i < len; ++i) total *= k;
        for (int q = 0; q < total; ++q) {
          Row b;
          for (int i = 0, x = q; i < len; ++i, x /= k) b.push_back(g_some[x % k]);
          expr::Tuple tb = real::toTuple(b);
          bool want = a.size() == b.size();
          for (size_t i = 0; want && i < a.size(); ++i) want = equal(a[i], b[i]);
          c.steps();
          if ((ta == tb) != want) c.fail(show(a) + " and " + show(b) + " compare " + (want ? "different" : "equal"));
          if (want && hashOf(ta) != hashOf(tb)) c.fail("equal tuples " + show(a) + " and " + show(b) + " have different hashes");
          if ((m.find(tb) != m.end()) != want) c.fail(show(b) + (want ? " is not found by the equal key " : " is found by the different key ") + show(a));
        }
        c.exec(total);
      }
      c.state(hashRow(a));
    });
    mc::phase("histories", "all histories of up to 5 (thorough: 6) of {assign a value of 4, copy, move, convert and back, overwrite by itself, destroy and recreate} over three holders: each holds what a model says after every step", 3, [](mc::Ctx &c) {
      static const std::vector<Val> vals = {Val::str("a string long enough to be on the heap"), Val::i32(7), Val(), Val::str("b")};
      std::unique_ptr<Operand> o[3];
      Val m[3];
      bool known[3] = {true, true, true};
      for (auto &p : o) p.reset(new Operand());
      int n = mc::thorough() ? 6 : 5;
      std::string h;
      for (int i = 0; i < n; ++i) {
        int k = c.choose(7), d = c.choose(3);
        int s = (d + 1) % 3;
        h += " " + std::to_string(k) + ">" + std::to_string(d);
        c.note(h);
        if (k < 4) { *o[d] = real::toOperand(vals[k]); m[d] = vals[k]; known[d] = true; }
        else if (k == 4) { *o[d] = *o[s]; m[d] = m[s]; known[d] = known[s]; }
        else if (k == 5) { *o[d] = std::move(*o[s]); m[d] = m[s]; known[d] = known[s]; known[s] = false; }
        else { Operand copy(*o[d]); o[d].reset(new Operand(copy)); *o[d] = *&*o[d]; }
        c.steps();
        for (int q = 0; q < 3; ++q) {
          if (!known[q]) continue;
          Val got;
          if (m[q].isNull() ? !(*o[q] == nullptr) : !real::readAs(*o[q], m[q].t, got) || !same(got, m[q]))
            c.fail("after" + h + ": holder " + std::to_string(q) + " holds " + show(real::fromOperand(*o[q])) + ", expected " + show(m[q]));
        }
        c.state(hashRow({m[0], m[1], m[2]}));
      }
    });
    mc::phase("strings", "all pairs of 35 strings and every byte pair: order, equality, hash and concatenation of string values, operands untouched", 2, [](mc::Ctx &c) {
      int kind = c.choose(2);
      std::vector<std::string> xs;
      if (kind == 0) for (auto &v : strings(1)) xs.push_back(v.s);
      else for (int i = 0; i < 256; ++i) xs.push_back(std::string(1, (char)i));
      const std::string x = c.pick(xs);
      for (auto &y : xs) {
        expr::String a(x), b(y), a2(x.data(), x.size()), e;
        int k = cmp(Val::str(x), Val::str(y));
        if ((a == b) != (k == 0) || (a != b) == (k == 0) || (a < b) != (k < 0) || (a <= b) != (k <= 0) || (a > b) != (k > 0) || (a >= b) != (k >= 0)) c.fail("string comparisons of " + show(Val::str(x)) + " and " + show(Val::str(y)) + " are wrong");
        std::ostringstream os;
        os << a;
        if (os.str() != x || a->size() != x.size() || *a.GetPtr() != x) c.fail("a string value of " + show(Val::str(x)) + " is printed as '" + os.str() + "'");
        if (x.find('\0') == std::string::npos && *expr::String(x.c_str()) != x) c.fail("a string value made of the text " + show(Val::str(x)) + " differs");
        expr::String s = a + b;
        if (*s != x + y || *a != x || *b != y || *a2 != x || !e->empty()) c.fail("concatenation of " + show(Val::str(x)) + " and " + show(Val::str(y)) + " gives " + show(Val::str(*s)));
        if (k == 0 && std::hash<expr::String>()(a) != std::hash<expr::String>()(b)) c.fail("equal strings with different hashes: " + show(Val::str(x)));
        c.steps();
      }
      c.exec(xs.size() - 1);
    });
    mc::phase("arrays", "holders of arrays of each element type, of 0..3 elements and shared: hold exactly the given array, equal to a copy with equal hash, not equal to NULL, plain values or arrays of another element type, converted to an optional array and back", 1, [](mc::Ctx &c) {
      int k = c.choose(6), n = c.choose(4);
      auto body = [&](auto elem) {
        using X = decltype(elem);
        using P = std::shared_ptr<std::vector<X>>;
        P p = std::make_shared<std::vector<X>>(n);
        Operand o(p), copy(o), asg;
        asg = copy;
        c.steps();
        std::string w = "an array of " + std::to_string(n) + " elements of type " + std::to_string(k);
        if (o.GetValue<P>() != p || copy.GetValue<P>() != p || asg.GetValue<P>() != p) c.fail(w + " is not held");
        if (!(o == copy) || o != copy || !(asg == o) || hashOf(o) != hashOf(copy) || hashOf(asg) != hashOf(o)) c.fail(w + " is not equal to its copy");
        if (o == nullptr || !(o != nullptr)) c.fail(w + " is NULL");
        for (auto &v : g_some) {
          Operand q = real::toOperand(v);
          if (q == o || o == q || !(o != q)) c.fail(w + " is equal to " + show(v));
        }
        for (T t : kTypes) { Val got; if (real::readAs(o, t, got)) c.fail(w + " can be read as " + tname(t)); }
        std::any a = ad::FromOperand<P>(o);
        const auto *opt = std::any_cast<std::optional<P>>(&a);
        if (!opt || !opt->has_value() || **opt != p) c.fail(w + " is not converted to an optional array");
        Operand back = ad::ToOperand<P>(a);
        if (back != o || back.GetValue<P>() != p) c.fail(w + " is not converted back from an optional array");
        a = ad::FromOperand<P>(Operand());
        opt = std::any_cast<std::optional<P>>(&a);
        if (!opt || opt->has_value() || ad::ToOperand<P>(a) != nullptr) c.fail("NULL is not converted to an empty optional array and back");
        expr::Tuple t1{o, Operand(1)}, t2{copy, Operand(1)}, t3{Operand(), Operand(1)};
        if (t1 != t2 || hashOf(t1) != hashOf(t2) || t1 == t3) c.fail("tuples with " + w + " are compared wrongly");
        asg = Operand(5);
        o = nullptr;
        if (copy.GetValue<P>() != p || p->size() != (size_t)n) c.fail(w + " changed with a copy");
        c.state(mc::mix(k, n));
      };
      if (k == 0) body(int32_t()); else if (k == 1) body(int64_t()); else if (k == 2) body(bool()); else if (k == 3) body(float()); else if (k == 4) body(double()); else body(std::string());
    });
    mc::phase("places", "strings of every length 1..70 and around the powers of two to 4096 as values, in tuples and as keys of a hash map, against copies that differ in one bit at one place (every one; of long ones the ends and the borders of powers of two): different", 1, [](mc::Ctx &c) {
      static const std::vector<int> big = mc::sizes(71, 4097);
      int i = c.choose(70 + (int)big.size());
      int n = i < 70 ? i + 1 : big[i - 70];
      std::string base(n, 'k');
      for (int k = 0; k < n; ++k) base[k] = (char)('b' + k % 23);
      const Operand x = real::toOperand(Val::str(base)), same = real::toOperand(Val::str(std::string(base)));
      std::unordered_map<expr::Tuple, int> m;
      m[{x, same}] = -1;
      const std::vector<int> ps = mc::places(n);
      for (int p : ps) {
        std::string s = base;
        s[p] ^= 1 << p % 8;
        const Operand y = real::toOperand(Val::str(s));
        std::string w = "strings of " + std::to_string(n) + " characters which differ at " + std::to_string(p);
        c.steps();
        c.state(mc::mix(n, p));
        if (x == y || !(x != y) || y == x || expr::Tuple{x} == expr::Tuple{y} || expr::String(base) == expr::String(s) || !(expr::String(base) != expr::String(s))) c.fail(w + " are equal");
        if (!(x == same) || x != same || std::hash<Operand>()(x) != std::hash<Operand>()(same)) c.fail("equal strings of " + std::to_string(n) + " characters are not");
        if (!m.insert({{y, x}, p}).second) c.fail(w + " are one key of a hash map");
      }
      for (int p : ps) {
        std::string s = base;
        s[p] ^= 1 << p % 8;
        auto it = m.find({real::toOperand(Val::str(s)), x});
        if (it == m.end() || it->second != p) c.fail("a string of " + std::to_string(n) + " characters is not found in a hash map again");
      }
    });
    mc::phase("wide-tuples", "tuples of every length up to 70 and around the powers of two and ten to 4096, of values of all types (and of one type each), built separately: equal, with equal hashes, the key of a hash map; against ones which differ at one place (every one; of long ones the ends and the borders of powers of two) by another value, NULL, another type or 0.0 for -0.0, or by one element more or fewer; also held in memory used before", 2, [](mc::Ctx &c) {
      static const std::vector<int> big = mc::sizes(71, 4097);
      int i = c.choose(71 + (int)big.size());
      int n = i <= 70 ? i : big[i - 71], kind = c.choose(8);
      auto value = [&](int k) -> Val {
        switch (kind == 7 ? (k * 5 + k / 7) % 7 : kind) {
        case 0: return Val::i32(k % 13 - 6);
        case 1: return Val::str("t" + std::to_string(k % 9));
        case 2: return Val::i64((int64_t)k << 33);
        case 3: return Val::f64(k % 3 ? k / 4.0 : -0.0);
        case 4: return Val::b(k & 1);
        case 5: return Val::f32(k % 4 ? (float)k : 0.0f);
        default: return kind == 6 && k % 2 ? Val::str("a text long enough to be on the heap " + std::to_string(k)) : Val();
        }
      };
      Row row;
      for (int k = 0; k < n; ++k) row.push_back(value(k));
      std::string w = "tuples of " + std::to_string(n) + " elements (kind " + std::to_string(kind) + ")";
      const expr::Tuple a = real::toTuple(row);
      const size_t h = hashOf(a);
      std::unordered_map<expr::Tuple, int> m;
      m[a] = 1;
      auto expect = [&](const Row &r, bool want, const std::string &what) {
        // elements which held something else before: whatever is left of it in the memory is no part of the value
        expr::Tuple b;
        for (size_t k = 0; k < r.size(); ++k) b.push_back(k % 2 ? real::toOperand(Val::i64(-1)) : real::toOperand(Val::str("before")));
        const expr::Tuple fresh = real::toTuple(r);
        for (size_t k = 0; k < r.size(); ++k) b[k] = fresh[k];
        for (const expr::Tuple *t : {(const expr::Tuple *)&fresh, (const expr::Tuple *)&b}) {
          c.steps();
          if ((a == *t) != want || (*t == a) != want || (a != *t) == want) c.fail(w + what + (want ? " are not equal" : " are equal"));
          if (want && hashOf(*t) != h) c.fail(w + what + " are equal but have different hashes");
          if ((m.find(*t) != m.end()) != want) c.fail(w + what + (want ? ": not found in a hash map" : ": found in a hash map"));
        }
      };
      expect(row, true, "");
      for (int p : mc::places(n)) {
        std::vector<Val> others = {Val(), Val::i32(77), Val::str("other"), Val::f64(0.0), Val::f64(-0.0), Val::f32(-0.0f), Val::b(false), Val::i64(0)};
        if (row[p].t == STR) others.push_back(Val::str(row[p].s + "x"));
        for (auto &v : others) {
          Row r = row;
          r[p] = v;
          expect(r, equal(row[p], v), " with " + show(v) + " at " + std::to_string(p));
        }
      }
      Row r = row;
      r.push_back(Val());
      expect(r, false, " and one NULL more");
      if (n) {
        r = row;
        r.pop_back();
        expect(r, false, " and one fewer");
      }
      c.state(mc::mix(n, kind));
      c.tick();
    });
    mc::phase("long-strings", "strings of lengths up to 70000 around powers of two as values and in tuples: equal to a copy with equal hash, different from ones that differ in one character or the length; found in a hash map of all of them", 1, [](mc::Ctx &c) {
      static const std::vector<int> lens = mc::sizes(4, 65537, {22, 23, 70000});
      int n = c.pick(lens);
      std::vector<std::string> v;
      v.push_back(std::string(n, 'q'));
      v.push_back(v[0] + "q");
      v.push_back(v[0] + std::string(1, '\0'));
      v.push_back(v[0].substr(1));
      for (int p : {0, n / 3, n / 2, n - 1}) for (char ch : {'p', '\xff', '\0'}) { v.push_back(v[0]); v.back()[p] = ch; }
      std::unordered_map<expr::Tuple, size_t> m;
      for (size_t i = 0; i < v.size(); ++i) m[real::toTuple({Val::str(v[i]), Val::i32(1)})] = i;
      for (size_t i = 0; i < v.size(); ++i)
        for (size_t j = 0; j < v.size(); ++j) {
          expr::String a(v[i]), b(v[j]);
          Operand x = real::toOperand(Val::str(v[i])), y = real::toOperand(Val::str(v[j]));
          bool want = v[i] == v[j];
          int k = cmp(Val::str(v[i]), Val::str(v[j]));
          std::string w = "strings of " + std::to_string(v[i].size()) + " and " + std::to_string(v[j].size()) + " characters, variations " + std::to_string(i) + " and " + std::to_string(j);
          c.steps();
          if ((a == b) != want || (a != b) == want || (x == y) != want || (x != y) == want || (a < b) != (k < 0) || (a <= b) != (k <= 0) || (a > b) != (k > 0) || (a >= b) != (k >= 0)) c.fail(w + " are compared wrongly");
          if (want && (hashOf(x) != hashOf(y) || std::hash<expr::String>()(a) != std::hash<expr::String>()(b))) c.fail("equal " + w + " have different hashes");
        }
      size_t distinct = 0;
      for (size_t i = 0; i < v.size(); ++i) { bool first = true; for (size_t j = 0; j < i; ++j) first = first && v[j] != v[i]; distinct += first; }
      for (size_t i = 0; i < v.size(); ++i) {
        auto it = m.find(real::toTuple({Val::str(v[i]), Val::i32(1)}));
        if (it == m.end() || v[it->second] != v[i]) c.fail("a tuple with a string of " + std::to_string(n) + " characters, variation " + std::to_string(i) + ", is not found in a hash map");
      }
      if (m.size() != distinct) c.fail("hash map of " + std::to_string(distinct) + " tuples has " + std::to_string(m.size()));
      c.state(n);
    });
  });
}
