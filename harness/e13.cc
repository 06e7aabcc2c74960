// E13: the reported static type is the type of the value.
#include "exprcheck.h"
using namespace ec;

// Decodes (with the given runner), checks the reported type and, after a run, that a non-NULL value is held as exactly that type.
static void check(mc::Ctx &c, expr::Runner &r, const Bytes &b, T want, const Row &row, const std::string &what) {
  Code code(b);
  c.note(what);
  r.Decode(code.data(), code.size());
  code.scribble();
  int got = r.GetType();
  c.steps();
  if (got != want) c.fail("the type reported for " + what + " [" + hex(b) + "] is " + std::to_string(got) + ", documented " + std::to_string(want));
  expr::Tuple t = real::toTuple(row);
  r.BindTuple(&t);
  Result res = real::run(r);
  if (r.GetType() != got) c.fail("the type reported for " + what + " changes after a run");
  c.outcome(mc::mix(got, res.error ? 1 : res.v == nullptr ? 2 : 3));
  if (res.error || res.v == nullptr) return;
  Val v;
  if (!real::readAs(res.v, want, v)) c.fail("the value of " + what + " [" + hex(b) + "] cannot be read as its type " + tname(want) + ", it is " + real::show(res));
  for (T o : kTypes)
    if (o != want && real::readAs(res.v, o, v)) c.fail("the value of " + what + " [" + hex(b) + "] can be read as " + tname(o) + " although its type is " + tname(want));
  // and through the typed accessor
  try {
    bool has = false;
    Val want1 = v, opt;
    real::readAs(res.v, want, want1);
    opt.t = want;
    switch (want) {
    case I32: { auto o = r.GetOptional<int32_t>(); has = o.has_value(); if (has) opt = Val::i32(*o); break; }
    case I64: { auto o = r.GetOptional<int64_t>(); has = o.has_value(); if (has) opt = Val::i64(*o); break; }
    case BOOL: { auto o = r.GetOptional<bool>(); has = o.has_value(); if (has) opt = Val::b(*o); break; }
    case F32: { auto o = r.GetOptional<float>(); has = o.has_value(); if (has) opt = Val::f32(*o); break; }
    case F64: { auto o = r.GetOptional<double>(); has = o.has_value(); if (has) opt = Val::f64(*o); break; }
    default: { auto o = r.GetOptional<expr::String>(); has = o.has_value(); if (has) opt = Val::str(**o); break; }
    }
    if (!has) c.fail("the typed accessor finds no value for " + what);
    if (!same(opt, want1)) c.fail("the typed accessor gives " + show(opt) + " for " + what + ", the value is " + show(want1));
  } catch (const std::exception &e) {
    c.fail("the typed accessor raises " + std::string(e.what()) + " for " + what);
  }
}

int main(int argc, char **argv) {
  return mc::mcMain(argc, argv, [] {
    static std::vector<const Op *> all, un;
    all = opsWhere([](const Op &) { return true; });
    mc::phase("operators", "every operator on all operand tuples of its basic domain and NULL, literals and variables", 3, [](mc::Ctx &c) {
      const Op &o = *all[c.choose((int)all.size())];
      Val a[3];
      int level = o.args.size() == 3 ? 0 : mc::thorough() ? 2 : 1;
      unsigned m = c.choose(2) ? 7 : 0;
      for (size_t i = 0; i < o.args.size(); ++i) a[i] = c.pick(dom(o.args[i], level, true));
      Row t;
      Bytes b = codeOf(o, a, m, t);
      c.state(mc::hashBytes(b.data(), b.size(), hashRow(t)));
      expr::Runner r;
      check(c, r, b, o.ret, t, showCall(o, a, m));
      if (c.wantSample()) c.sample(showCall(o, a, m) + " has type " + tname(o.ret));
    });
    mc::phase("leaves", "every literal, NULL and variable of every type over the boundary domains", 2, [](mc::Ctx &c) {
      T t = kTypes[c.choose(6)];
      const Val &v = c.pick(dom(t, 2, true));
      int form = c.choose(2);
      Bytes b = form ? encVar(t, 0) : encLit(v, t);
      c.state(mc::hashBytes(b.data(), b.size(), hashVal(v)));
      expr::Runner r;
      check(c, r, b, t, Row{v}, (form ? "variable " : "literal ") + show(v));
    });
    mc::phase("last-operator", "every type-compatible (inner, outer) operator pair, preceded by another expression, with and without end marker, in a runner that decoded another program before: the last operator decides", 3, [](mc::Ctx &c) {
      const Op &o = *all[c.choose((int)all.size())];
      int pos = c.choose((int)o.args.size());
      static std::map<int, std::vector<const Op *>> byRet;
      if (byRet.empty()) for (auto *q : all) byRet[q->ret].push_back(q);
      const Op &in = *c.pick(byRet[o.args[pos]]);
      int ctx = c.choose(4);
      Prog p;
      if (ctx & 1) p.push_back(iConst(Val::str("x"), STR));
      for (size_t i = 0; i < o.args.size(); ++i) {
        if ((int)i == pos) {
          for (T a : in.args) p.push_back(iConst(dom(a, 0)[1], a));
          p.push_back(iOp(in));
        } else {
          p.push_back(iConst(dom(o.args[i], 0)[1], o.args[i]));
        }
      }
      p.push_back(iOp(o));
      Bytes b = encode(p);
      if (ctx & 2) b.push_back(0);
      expr::Runner r;
      if (ctx & 2) {
        Bytes first = encConst(o.ret == STR ? Val::i32(1) : Val::str("q"));
        Code code(first);
        r.Decode(code.data(), code.size());
      }
      c.state(mc::hashBytes(b.data(), b.size()));
      check(c, r, b, o.ret, {}, show(p));
    });
    mc::phase("long-programs", "every operator behind n others and literals of other types, n = 1..70 and around the powers of two and ten to 4096 (quick: beyond 260 every 7th operator): the last operator decides", 2, [](mc::Ctx &c) {
      static const std::vector<int> big = mc::sizes(71, 4097);
      int i = c.choose(70 + (int)big.size());
      int n = i < 70 ? i + 1 : big[i - 70];
      const Op &o = *all[c.choose((int)all.size())];
      if (n > 260 && !mc::thorough() && (&o - all[0]) % 7) return;
      static const std::vector<Val> lits = {Val::i32(1), Val::str("q"), Val::f64(2), Val::b(true), Val::i64(3), Val::f32(4)};
      Bytes b;
      for (int k = 0; k < n; ++k) b += k % 7 == 6 ? op("NEG<f32>").code : encConst(lits[k % 7 % 6]);
      for (T a : o.args) b += encConst(dom(a, 0)[1]);
      b += o.code;
      expr::Runner r;
      c.state(mc::mix(n, mc::hashStr(o.name)));
      check(c, r, b, o.ret, {}, o.name + " behind " + std::to_string(n) + " others");
    });
  });
}
