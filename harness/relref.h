// Reference model of the relational operators and the bridge to the library.
#pragma once
#include <memory>
#include <set>

#include "exprcheck.h"
#include "refdecode.h"
#include "rel/rel_runner.h"

namespace rr {
using namespace ec;

struct AggSpec {
  enum K { CountAll, Count, Sum, Max, Min } k;
  T t = NUL;
  int col = 0;
};
inline std::string show(const AggSpec &a) {
  static const char *n[] = {"COUNT_ALL", "COUNT", "SUM", "MAX", "MIN"};
  return a.k == AggSpec::CountAll ? "COUNT_ALL" : std::string(n[a.k]) + "<" + tname(a.t) + ">($" + std::to_string(a.col) + ")";
}

struct OpSpec {
  enum K { Filter, Project, Grouped, Ungrouped } k;
  Prog prog;                 // Filter, Project
  std::vector<int> keys;     // Grouped
  std::vector<AggSpec> aggs;
  bool isAgg() const { return k == Grouped || k == Ungrouped; }
};
inline OpSpec filter(const Prog &p) { return {OpSpec::Filter, p, {}, {}}; }
inline OpSpec project(const std::vector<Prog> &ps) {
  OpSpec o{OpSpec::Project, {}, {}, {}};
  for (auto &p : ps) o.prog.insert(o.prog.end(), p.begin(), p.end());
  return o;
}
inline OpSpec grouped(const std::vector<int> &keys, const std::vector<AggSpec> &aggs) { return {OpSpec::Grouped, {}, keys, aggs}; }
inline OpSpec ungrouped(const std::vector<AggSpec> &aggs) { return {OpSpec::Ungrouped, {}, {}, aggs}; }
using Chain = std::vector<OpSpec>;

inline std::string show(const OpSpec &o) {
  std::string s;
  if (o.k == OpSpec::Filter) return "filter{" + ref::show(o.prog) + "}";
  if (o.k == OpSpec::Project) return "project{" + ref::show(o.prog) + "}";
  s = o.k == OpSpec::Grouped ? "group{" : "aggregate{";
  if (o.k == OpSpec::Grouped) { for (int k : o.keys) s += "$" + std::to_string(k) + " "; s += ": "; }
  for (auto &a : o.aggs) s += show(a) + " ";
  return s + "}";
}
inline std::string show(const Chain &c) {
  std::string s;
  for (auto &o : c) s += (s.empty() ? "" : " -> ") + show(o);
  return s;
}
inline std::string showRows(const std::vector<Row> &v) {
  std::string s;
  for (auto &r : v) s += (s.empty() ? "" : " ") + ::ref::show(r);
  return "{" + s + "}";
}

inline Bytes encAgg(const AggSpec &a) {
  Bytes b;
  if (a.k == AggSpec::CountAll) {
    b.push_back(0x10);
  } else {
    b.push_back((unsigned char)((a.k == AggSpec::Count ? 0x10 : a.k == AggSpec::Sum ? 0x20 : a.k == AggSpec::Max ? 0x30 : 0x40) | a.t));
    putVarint(b, a.col);
  }
  return b;
}
// eoe: whether the optional end marker after an aggregation, or at the very end, is written.
inline Bytes encodeOp(const OpSpec &o, bool eoe) {
  Bytes b;
  switch (o.k) {
  case OpSpec::Filter: b.push_back(0x71); b += ref::encode(o.prog); break;
  case OpSpec::Project: b.push_back(0x72); b += ref::encode(o.prog); break;
  case OpSpec::Grouped:
    b.push_back(0x73);
    b.push_back(0x61);
    putVarint(b, o.keys.size());
    for (int k : o.keys) putVarint(b, (uint32_t)k);
    putVarint(b, o.aggs.size());
    for (auto &a : o.aggs) b += encAgg(a);
    break;
  case OpSpec::Ungrouped:
    b.push_back(0x74);
    putVarint(b, o.aggs.size());
    for (auto &a : o.aggs) b += encAgg(a);
    break;
  }
  if (eoe) b.push_back(0);
  return b;
}
inline Bytes encode(const Chain &c, bool aggEoe = true, bool lastEoe = true) {
  Bytes b;
  for (size_t i = 0; i < c.size(); ++i) {
    bool last = i + 1 == c.size();
    b += encodeOp(c[i], (!c[i].isAgg() || aggEoe) && (!last || lastEoe));
  }
  return b;
}

// Values that are the same group: equal, 0.0 and -0.0 included.
inline bool keyEq(const Val &a, const Val &b) {
  if (a.t != b.t) return false;
  if (a.isNull()) return true;
  return cmp(a, b) == 0;
}
// A result of the library against the reference, where MIN/MAX/keys may be either zero.
inline bool loose(const Val &a, const Val &b) { return same(a, b) || ((a.t == F32 || a.t == F64) && keyEq(a, b)); }
inline bool loose(const Row &a, const Row &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!loose(a[i], b[i])) return false;
  return true;
}

struct RefError {};
struct RefAny {};

inline Val fold(const AggSpec &a, const Val &acc, const Row &r) {
  if (a.k == AggSpec::CountAll) return Val::i64(acc.isNull() ? 1 : acc.i + 1);
  if (a.col < 0 || a.col >= (int)r.size()) throw RefAny();
  const Val &v = r[a.col];
  if (v.isNull()) return acc;
  if (a.k == AggSpec::Count) return Val::i64(acc.isNull() ? 1 : acc.i + 1);
  if (v.t != a.t) throw RefAny();
  if (acc.isNull()) return v;
  if (a.k == AggSpec::Sum) {
    switch (a.t) {
    case I32: case I64: return mkInt(a.t, (__int128)acc.i + v.i);
    case F32: return Val::f32(acc.f + v.f);
    default: return Val::f64(acc.d + v.d);
    }
  }
  int k = cmp(v, acc);
  if (k == 2) throw RefAny();
  return (a.k == AggSpec::Max ? k == 1 : k == -1) ? v : acc;
}

struct Group {
  Row key, acc;
};

// The reference chain. Outputs while putting are in order; outputs of drain() are a multiset.
class RefChain {
 public:
  explicit RefChain(const Chain &c) : m_chain(c), m_groups(c.size()) {}
  // Pushes a row in; at most one output. Throws RefError if an evaluation raises (the row is dropped).
  bool put(const Row &in, Row &out) { return push(0, in, out); }
  // Takes everything out. Results whose processing raises are dropped and counted in `errors`.
  std::vector<Row> drain(int *errors = nullptr) {
    std::vector<Row> outs;
    for (size_t i = 0; i < m_chain.size(); ++i) {
      if (!m_chain[i].isAgg()) continue;
      std::vector<Group> gs;
      gs.swap(m_groups[i]);
      for (auto &g : gs) {
        Row r = g.key;
        r.insert(r.end(), g.acc.begin(), g.acc.end());
        Row out;
        try {
          if (push(i + 1, r, out)) outs.push_back(out);
        } catch (RefError &) {
          if (!errors) throw;
          ++*errors;
        }
      }
    }
    return outs;
  }
  size_t pendingGroups() const {
    size_t n = 0;
    for (auto &g : m_groups) n += g.size();
    return n;
  }
  std::vector<Group> &groups(size_t i) { return m_groups[i]; }
  uint64_t hash() const {
    uint64_t h = 5;
    for (auto &gs : m_groups) {
      uint64_t x = gs.size();
      for (auto &g : gs) x += hashRow(g.acc, hashRow(g.key));  // order independent
      h = mc::mix(h, x);
    }
    return h;
  }

 private:
  Chain m_chain;
  std::vector<std::vector<Group>> m_groups;

  static Eval evalOn(const Prog &p, const Row &r) {
    for (auto &i : p) if (i.k == Instr::Var && (i.index < 0 || i.index >= (int)r.size())) throw RefAny();
    Eval e = p.empty() ? Eval() : runChecked(p, r);
    return e;
  }
  bool push(size_t i, Row r, Row &out) {
    for (; i < m_chain.size(); ++i) {
      const OpSpec &o = m_chain[i];
      if (o.k == OpSpec::Filter) {
        if (o.prog.empty()) throw RefError();
        Eval e = evalOn(o.prog, r);
        if (e.kind == Out::Any) throw RefAny();
        if (e.kind == Out::Error) throw RefError();
        const Val &v = e.stack.back();
        if (!v.isNull() && v.t != BOOL) throw RefAny();
        if (v.isNull() || !v.i) return false;
      } else if (o.k == OpSpec::Project) {
        Eval e = evalOn(o.prog, r);
        if (e.kind == Out::Any) throw RefAny();
        if (e.kind == Out::Error) throw RefError();
        r = e.stack;
      } else {
        Row key;
        for (int k : o.keys) {
          if (k < 0 || k >= (int)r.size()) throw RefAny();
          key.push_back(r[k]);
        }
        Row next;
        Group *g = nullptr;
        for (auto &x : m_groups[i]) {
          bool eq = true;
          for (size_t k = 0; k < key.size(); ++k) eq = eq && keyEq(x.key[k], key[k]);
          if (eq) { g = &x; break; }
        }
        for (size_t a = 0; a < o.aggs.size(); ++a) next.push_back(fold(o.aggs[a], g ? g->acc[a] : Val(), r));
        if (g) g->acc = next;
        else m_groups[i].push_back({key, next});
        return false;
      }
    }
    out = r;
    return true;
  }
};

// The real runner, with ownership handled the way the documentation asks for.
class Real {
 public:
  Real() : m_r(new dingodb::rel::RelRunner()) {}
  void decode(const Bytes &b) {
    Code code(b);  // freed right after
    const unsigned char *e = m_r->Decode(code.data(), code.size());
    if (e != code.data() + code.size()) throw std::logic_error("decoding stopped early");
  }
  // 0 no output, 1 output, 2 raised
  int put(const Row &r, Row &out, const Row *hint = nullptr) {
    const expr::Tuple *t = nullptr;
    try {
      t = m_r->Put(new expr::Tuple(real::toTuple(r)));
    } catch (const std::exception &e) {
      m_what = e.what();
      return 2;
    }
    return take(t, out, hint);
  }
  int get(Row &out, const Row *hint = nullptr) {
    const expr::Tuple *t = nullptr;
    try {
      t = m_r->Get();
    } catch (const std::exception &e) {
      m_what = e.what();
      return 2;
    }
    return take(t, out, hint);
  }
  dingodb::rel::RelRunner *runner() { return m_r.get(); }
  const std::string &what() const { return m_what; }

 private:
  std::unique_ptr<dingodb::rel::RelRunner> m_r;
  std::string m_what;
  // The hint (expected types) only saves time.
  static int take(const expr::Tuple *t, Row &out, const Row *hint) {
    if (!t) return 0;
    out = real::fromTuple(*t, hint);
    delete t;
    return 1;
  }
};

// Matches two multisets of rows (loosely); returns an explanation or "".
inline std::string diffRows(std::vector<Row> got, std::vector<Row> want) {
  for (auto &w : want) {
    bool found = false;
    for (size_t i = 0; i < got.size() && !found; ++i)
      if (loose(got[i], w)) { got.erase(got.begin() + i); found = true; }
    if (!found) return "result " + ref::show(w) + " is missing" + (got.empty() ? "" : ", there is " + showRows(got));
  }
  if (!got.empty()) return "unexpected result " + ref::show(got[0]);
  return "";
}

// Drives a decoded chain with rows (and drains), comparing each step. `errorsExpected`: rows may raise.
class Driver {
 public:
  Driver(mc::Ctx &c, const Chain &chain, const Bytes &code) : m_c(c), m_ref(chain), m_what(rr::show(chain)) {
    m_c.note(m_what);
    try {
      m_real.decode(code);
    } catch (const std::exception &e) {
      m_c.fail("decoding " + m_what + " [" + hex(code) + "] raised " + e.what());
    }
  }
  // Takes over a runner with a past, which then decodes the chain.
  Driver(mc::Ctx &c, const Chain &chain, const Bytes &code, Real &&real, const std::string &past)
      : m_c(c), m_ref(chain), m_real(std::move(real)), m_what(past + " then " + rr::show(chain)) {
    m_c.note(m_what);
    try {
      m_real.decode(code);
    } catch (const std::exception &e) {
      m_c.fail("decoding " + m_what + " [" + hex(code) + "] raised " + e.what());
    }
  }
  void put(const Row &r) {
    m_hist.push_back({false, r});
    if (m_c.replay) m_c.note(m_what + ":" + tail());
    Row want, got;
    int w;
    try {
      w = m_ref.put(r, want);
    } catch (RefError &) {
      w = 2;
    }
    int g = m_real.put(r, got, &want);
    m_c.steps();
    m_c.state(mc::mix(m_ref.hash(), m_hash));
    if (g != w || (w == 1 && !same(got, want)))
      m_c.fail(m_what + " after" + tail() + ": " + describe(g, got) + ", expected " + describe(w, want));
    m_c.outcome(w == 1 ? hashRow(want) : w);
    if (w == 2) ++m_errors;
  }
  void drain() {
    m_hist.push_back({true, {}});
    if (m_c.replay) m_c.note(m_what + ":" + tail());
    int wantErr = 0, gotErr = 0;
    std::vector<Row> want = m_ref.drain(&wantErr), got;
    size_t limit = want.size() + wantErr + 4;
    Row hint;
    for (auto &w : want) {
      if (hint.size() < w.size()) hint.resize(w.size());
      for (size_t i = 0; i < w.size(); ++i) if (!w[i].isNull()) hint[i] = w[i];
    }
    for (;;) {
      Row r;
      int g = m_real.get(r, &hint);
      m_c.steps();
      if (g == 0) break;
      if (g == 2) ++gotErr;
      else got.push_back(r);
      if (got.size() + gotErr > limit) m_c.fail(m_what + " after" + tail() + ": results do not end: " + showRows(got));
    }
    std::string d = diffRows(got, want);
    if (!d.empty()) m_c.fail(m_what + " after" + tail() + ": " + d + "; got " + showRows(got) + ", expected " + showRows(want));
    if (gotErr != wantErr) m_c.fail(m_what + " after" + tail() + ": " + std::to_string(gotErr) + " errors while taking results, expected " + std::to_string(wantErr));
    Row r;
    if (int g = m_real.get(r)) m_c.fail(m_what + " after" + tail() + ": taking again gives " + describe(g, r));
    uint64_t h = 0;
    for (auto &x : want) h += hashRow(x);
    m_c.outcome(h);
    m_last = want;
  }
  Real &real() { return m_real; }
  RefChain &ref() { return m_ref; }
  int errors() const { return m_errors; }
  const std::vector<Row> &last() const { return m_last; }
  std::string text() const { return m_what + ":" + tail(); }

 private:
  mc::Ctx &m_c;
  RefChain m_ref;
  Real m_real;
  std::string m_what;
  std::vector<std::pair<bool, Row>> m_hist;  // drain, or put of a row
  uint64_t m_hash = mc::hashStr(m_what);
  std::vector<Row> m_last;
  int m_errors = 0;
  std::string tail() const {
    std::string s;
    size_t i = m_hist.size();
    while (i > 0 && s.size() < 1200) {
      --i;
      s = (m_hist[i].first ? " drain" : " put" + ::ref::show(m_hist[i].second)) + s;
    }
    if (i > 0) s = "..." + std::to_string(i) + " operations" + s;
    return s.size() < 1300 ? s : "..." + s.substr(s.size() - 1300);
  }
  std::string describe(int k, const Row &r) { return k == 0 ? "no output" : k == 2 ? "an error (" + m_real.what() + ")" : ::ref::show(r); }
  static std::string ref_show(const Row &r) { return ::ref::show(r); }
};

inline std::vector<AggSpec> allAggs(int col) {
  std::vector<AggSpec> v{{AggSpec::CountAll, NUL, 0}};
  for (T t : kTypes) v.push_back({AggSpec::Count, t, col});
  for (T t : {I32, I64, F32, F64}) v.push_back({AggSpec::Sum, t, col});
  for (T t : {I32, I64, F32, F64, STR}) { v.push_back({AggSpec::Max, t, col}); v.push_back({AggSpec::Min, t, col}); }
  return v;
}
inline Prog var(T t, int i) { return {iVar(t, i)}; }
inline Prog apply1(const Prog &a, const char *o) { Prog p = a; p.push_back(iOp(op(o))); return p; }
inline Prog apply2(const Prog &a, const Prog &b, const char *o) { Prog p = a; p.insert(p.end(), b.begin(), b.end()); p.push_back(iOp(op(o))); return p; }
inline Prog lit(const Val &v, T t) { return {iConst(v, t)}; }
}  // namespace rr
