// Parts shared by the harnesses of the expression properties.
#pragma once
#include <map>

#include "real.h"

namespace ec {
using namespace ref;
using real::Code;
using real::Result;

using Dom = std::vector<Val>;

// Value domains are built once per (type, level).
inline const Dom &dom(T t, int level, bool null = false) {
  static std::map<std::tuple<int, int, bool>, Dom> m;
  auto k = std::make_tuple((int)t, level, null);
  auto i = m.find(k);
  if (i == m.end()) i = m.emplace(k, null ? withNull(domain(t, level)) : domain(t, level)).first;
  return i->second;
}

inline std::vector<const Op *> opsWhere(const std::function<bool(const Op &)> &f) {
  std::vector<const Op *> v;
  for (auto &o : ops()) if (f(o)) v.push_back(&o);
  return v;
}
inline bool starts(const Op &o, std::initializer_list<const char *> names) {
  for (auto n : names) {
    std::string s = n;
    if (o.name == s || (o.name.compare(0, s.size(), s) == 0 && o.name[s.size()] == '<')) return true;
  }
  return false;
}

// How operands reach the operator: constants of the program or elements of the bound tuple.
enum Form { Lit = 0, Var = 1 };

// Encodes `operands op`, bit i of mask telling the form of operand i.
inline Bytes codeOf(const Op &o, const Val *a, unsigned mask, Row &tuple) {
  Bytes b;
  tuple.clear();
  for (size_t i = 0; i < o.args.size(); ++i) {
    if (mask >> i & 1) {
      b += encVar(o.args[i], (uint32_t)tuple.size());
      tuple.push_back(a[i]);
    } else {
      b += encLit(a[i], o.args[i]);
    }
  }
  b += o.code;
  return b;
}

inline std::string showCall(const Op &o, const Val *a, unsigned mask) {
  std::string s = o.name + "(";
  for (size_t i = 0; i < o.args.size(); ++i) s += (i ? ", " : "") + show(a[i]) + (mask >> i & 1 ? " as variable" : "");
  return s + ")";
}

// Applies the real operator to the operands, compares with the reference, and (variables) checks that the tuple is
// left alone. Counts one transition per application.
inline void apply(mc::Ctx &c, const Op &o, const Val *a, unsigned mask) {
  Row tuple;
  Bytes b = codeOf(o, a, mask, tuple);
  Out want = o.apply(a);
  expr::Tuple t = real::toTuple(tuple);
  Code code(b);
  expr::Runner r;
  c.note(o.name);
  Result res;
  try {
    const unsigned char *e = r.Decode(code.data(), code.size());
    if (e != code.data() + code.size()) c.fail("decoding " + showCall(o, a, mask) + " [" + hex(b) + "] stopped early");
  } catch (const std::exception &e) {
    c.fail("decoding " + showCall(o, a, mask) + " [" + hex(b) + "] raised " + e.what());
  }
  code.scribble();
  r.BindTuple(&t);
  res = real::run(r);
  c.steps();
  uint64_t h = mc::hashStr(o.name);
  for (size_t i = 0; i < o.args.size(); ++i) h = hashVal(a[i], h);
  c.state(h);
  c.outcome(res.error ? 1 : mc::mix(2, want.kind == Out::Value ? hashVal(want.v) : 3));
  if (!real::agrees(res, want))
    c.fail(showCall(o, a, mask) + " [" + hex(b) + "] gives " + real::show(res) + ", expected " + show(want));
  if (mask) {
    for (size_t i = 0; i < t.size(); ++i) {
      Val v;
      if (!real::readAs(t[i], tuple[i].t, v) || !same(v, tuple[i]))
        c.fail(showCall(o, a, mask) + " modified its operand " + std::to_string(i) + " to " + show(real::fromOperand(t[i])));
    }
  }
  if (c.wantSample()) c.sample(showCall(o, a, mask) + " [" + hex(b) + "] = " + real::show(res));
}

// Runs a program on a tuple and compares everything it leaves (bottom first) and its single result with the reference.
inline void checkProgram(mc::Ctx &c, const Prog &p, const Row &t) {
  Bytes b = encode(p);
  // The states of the abstract machine are recorded for all but very long programs: hashing each is quadratic.
  const bool small = p.size() < 5000;
  Eval want = eval(p, &t, small ? &c : nullptr);
  if (!small) c.state(mc::hashBytes(b.data(), b.size()));
  Code code(b);
  expr::Runner r;
  expr::Tuple tt = real::toTuple(t);
  auto where = [&]() { return show(p).substr(0, 1500) + " [" + hex(b).substr(0, 400) + "] on " + show(t).substr(0, 300); };
  if (p.size() < 200) c.note(show(p));
  try {
    const unsigned char *e = r.Decode(code.data(), code.size());
    if (e != code.data() + code.size()) c.fail("decoding stopped early: " + where());
  } catch (const std::exception &e) {
    c.fail("decoding raised " + std::string(e.what()) + ": " + where());
  }
  code.scribble();
  r.BindTuple(&tt);
  Result res = real::run(r);
  c.steps(p.size());
  c.outcome(want.kind == Out::Value ? hashRow(want.stack) : (uint64_t)want.kind);
  if (want.kind == Out::Any) return;
  if (want.kind == Out::Error) {
    if (!res.error) c.fail(where() + " gives " + real::show(res) + ", expected <error>");
    return;
  }
  if (res.error) c.fail(where() + " raises " + res.what + ", expected " + show(want.stack.back()));
  std::unique_ptr<expr::Tuple> all(r.GetAll());
  auto eq = [&](const expr::Operand &o, const Val &v) {
    Out w = Out::of(v);
    w.ulp = want.ulp * 4;
    return real::equals(o, w);
  };
  if (!eq(res.v, want.stack.back())) c.fail(where() + " gives " + real::show(res) + ", expected " + show(want.stack.back()));
  if (all->size() != want.stack.size())
    c.fail(where() + " leaves " + std::to_string(all->size()) + " results, expected " + std::to_string(want.stack.size()));
  for (size_t i = 0; i < all->size(); ++i)
    if (!eq((*all)[i], want.stack[i]))
      c.fail(where() + ": result " + std::to_string(i) + " is " + show(real::fromOperand((*all)[i])) + ", expected " + show(want.stack[i]));
  for (size_t i = 0; i < tt.size(); ++i)
    if (!real::equals(tt[i], Out::of(t[i]))) c.fail(where() + ": tuple element " + std::to_string(i) + " was modified");
  if (c.wantSample()) c.sample(where() + " = " + show(want.stack));
}

// Every operator of a set on every tuple over its operand domains, in every listed form.
inline void gridPhase(const std::string &name, const std::string &rule, std::vector<const Op *> set,
                      std::function<const Dom &(const Op &, size_t)> domOf, std::vector<unsigned> masks) {
  mc::phase(name, rule, 2, [=](mc::Ctx &c) {
    const Op &o = *set[c.choose((int)set.size())];
    Val a[3];
    for (size_t i = 0; i < o.args.size(); ++i) a[i] = c.pick(domOf(o, i));
    unsigned m = c.pick(masks) & ((1u << o.args.size()) - 1);
    apply(c, o, a, m);
  });
}

// A program evaluated by the library, repeatedly, with rebindable operands. Used for sweeps over whole types.
class Sweep {
 public:
  Sweep(const Op &o) {
    Row t;
    Val a[3];
    m_code = codeOf(o, a, 7, t);
    m_block.reset(new Code(m_code));
    m_runner.Decode(m_block->data(), m_block->size());
    m_tuple.resize(o.args.size());
    m_runner.BindTuple(&m_tuple);
  }
  expr::Tuple &tuple() { return m_tuple; }
  expr::Operand run() {
    m_runner.Run();
    return m_runner.Get();
  }

 private:
  Bytes m_code;
  std::unique_ptr<Code> m_block;
  expr::Runner m_runner;
  expr::Tuple m_tuple;
};
}  // namespace ec
