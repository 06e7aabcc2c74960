// E04: NULL propagation and NULL tests.
#include "exprcheck.h"
using namespace ec;

// The ways a NULL of type t can come about.
static std::vector<Prog> nullWays(T t) {
  std::vector<Prog> w;
  w.push_back({iConst(Val(), t)});
  w.push_back({iVar(t, 0)});
  std::string s = std::string("<") + tname(t) + ">";
  if (t == I32) w.push_back({iConst(Val::i32(5), t), iConst(Val::i32(0), t), iOp(op("DIV" + s))});
  if (t == I64) w.push_back({iConst(Val::i64(5), t), iConst(Val::i64(0), t), iOp(op("MOD" + s))});
  if (t == F32) w.push_back({iConst(Val::f32(5), t), iConst(Val::f32(0), t), iOp(op("DIV" + s))});
  if (t == F64) w.push_back({iConst(Val::f64(5), t), iConst(Val::f64(-0.0), t), iOp(op("DIV" + s))});
  if (t == STR) w.push_back({iConst(Val::str("x"), t), iConst(Val(), t), iOp(op("CONCAT"))});
  if (t == BOOL) {
    w.push_back({iConst(Val(), t), iOp(op("NOT"))});
    w.push_back({iConst(Val::b(true), t), iConst(Val(), t), iOp(op("AND"))});
    w.push_back({iConst(Val(), I32), iConst(Val::i32(1), I32), iOp(op("EQ<i32>"))});
  } else {
    T o = t == I64 ? F64 : I64;
    w.push_back({iConst(Val(), o), iOp(op(std::string("CAST<") + tname(t) + "," + tname(o) + ">"))});
  }
  return w;
}

int main(int argc, char **argv) {
  return mc::mcMain(argc, argv, [] {
    static std::vector<const Op *> strict, tests;
    strict = opsWhere([](const Op &o) { return o.strict; });
    tests = opsWhere([](const Op &o) { return starts(o, {"IS_NULL", "IS_TRUE", "IS_FALSE"}); });
    static std::map<int, std::vector<Prog>> ways;
    for (T t : kTypes) ways[t] = nullWays(t);
    mc::phase("strict-null", "every strict operator x every non-empty set of NULL operands x every way a NULL arises (literal, variable, division by zero, NULL-propagating operator, logic, cast) x the other operands over the boundary domain as literals or variables", 3, [](mc::Ctx &c) {
      const Op &o = *strict[c.choose((int)strict.size())];
      size_t n = o.args.size();
      unsigned nulls = 1 + c.choose((1 << n) - 1);
      Prog p;
      Row t{Val()};  // element 0 is NULL
      bool varForm = c.choose(2);
      for (size_t i = 0; i < n; ++i) {
        T a = o.args[i];
        if (nulls >> i & 1) {
          const Prog &w = c.pick(ways[a]);
          p.insert(p.end(), w.begin(), w.end());
        } else {
          const Val &v = c.pick(dom(a, mc::thorough() && n < 3 ? 2 : 1));
          if (varForm) {
            p.push_back(iVar(a, (int)t.size()));
            t.push_back(v);
          } else {
            p.push_back(iConst(v, a));
          }
        }
      }
      p.push_back(iOp(o));
      Bytes b = encode(p);
      Code code(b);
      expr::Runner r;
      r.Decode(code.data(), code.size());
      expr::Tuple tt = real::toTuple(t);
      r.BindTuple(&tt);
      Result res = real::run(r);
      c.steps(p.size());
      c.state(mc::hashBytes(b.data(), b.size(), hashRow(t)));
      c.outcome(res.error);
      if (res.error || res.v != nullptr) c.fail(show(p) + " on " + show(t) + " gives " + real::show(res) + ", expected null");
      if (c.wantSample()) c.sample(show(p) + " on " + show(t) + " = null");
    });
    auto noNull = opsWhere([](const Op &o) { return o.strict; });
    static std::vector<const Op *> nn;
    nn = noNull;
    mc::phase("strict-non-null", "every strict operator on non-NULL operands over the boundary domain: the result is NULL only for division or remainder by zero", 3, [](mc::Ctx &c) {
      const Op &o = *nn[c.choose((int)nn.size())];
      Val a[3];
      bool form = c.choose(2);
      for (size_t i = 0; i < o.args.size(); ++i) a[i] = c.pick(dom(o.args[i], mc::thorough() && o.args.size() < 3 ? 2 : 1));
      Row t;
      Bytes b = codeOf(o, a, form ? 7 : 0, t);
      Code code(b);
      expr::Runner r;
      r.Decode(code.data(), code.size());
      expr::Tuple tt = real::toTuple(t);
      r.BindTuple(&tt);
      Result res = real::run(r);
      c.steps();
      c.state(mc::hashBytes(b.data(), b.size(), hashRow(t)));
      bool div0 = starts(o, {"DIV", "MOD"}) && (a[1].t == F32 ? a[1].f == 0 : a[1].t == F64 ? a[1].d == 0 : a[1].i == 0);
      bool null = !res.error && res.v == nullptr;
      c.outcome(null * 2 + res.error);
      if (null != div0) c.fail(showCall(o, a, form ? 7 : 0) + " gives " + real::show(res) + (div0 ? ", expected null" : ", expected a value"));
    });
    mc::phase("null-tests", "IS_NULL, IS_TRUE, IS_FALSE of every type on every boundary value and NULL in every form; at most one is true, exactly one unless a non-NULL string", 2, [](mc::Ctx &c) {
      T t = kTypes[c.choose(6)];
      const Dom &d = dom(t, 2, true);
      const Val &v = c.pick(d);
      std::vector<std::pair<Prog, Row>> forms;
      forms.push_back({{iVar(t, 0)}, {v}});
      if (!v.isNull()) forms.push_back({{iConst(v, t)}, {Val()}});
      else for (auto &w : ways[t]) forms.push_back({w, {Val()}});
      for (auto &f : forms) {
        int trueCount = 0;
        for (auto n : {"IS_NULL<", "IS_TRUE<", "IS_FALSE<"}) {
          const Op &o = op(std::string(n) + tname(t) + ">");
          Prog p = f.first;
          p.push_back(iOp(o));
          Bytes b = encode(p);
          Code code(b);
          expr::Runner r;
          r.Decode(code.data(), code.size());
          expr::Tuple tt = real::toTuple(f.second);
          r.BindTuple(&tt);
          Result res = real::run(r);
          c.steps(p.size());
          c.state(mc::hashBytes(b.data(), b.size(), hashRow(f.second)));
          Val got;
          Out want = o.apply(&v);
          if (res.error || res.v == nullptr || !real::readAs(res.v, BOOL, got) || got.t != BOOL)
            c.fail(show(p) + " on " + show(f.second) + " gives " + real::show(res) + ", expected a boolean");
          if (!real::agrees(res, want)) c.fail(show(p) + " on " + show(f.second) + " gives " + real::show(res) + ", expected " + show(want));
          trueCount += (int)got.i;
          c.outcome(got.i);
          if (c.wantSample()) c.sample(show(p) + " on " + show(f.second) + " = " + show(got));
        }
        bool exact = t != STR || v.isNull();
        if (trueCount > 1 || (exact && trueCount != 1)) c.fail(std::to_string(trueCount) + " of IS_NULL, IS_TRUE, IS_FALSE hold for " + show(v));
      }
    });
  });
}
