// E01: a program is the composition of its operators.
#include "exprcheck.h"
using namespace ec;

static const Dom &few(T t) {
  static std::map<int, Dom> m = {
      {I32, {Val::i32(3), Val::i32(-2), Val::i32(7)}},
      {I64, {Val::i64(5), Val::i64(-4), Val::i64(1LL << 33)}},
      {BOOL, {Val::b(true), Val::b(false)}},
      {F32, {Val::f32(1.5f), Val::f32(-0.25f)}},
      {F64, {Val::f64(0.75), Val::f64(-2.5)}},
      {STR, {Val::str("pqrst"), Val::str(" 4x"), Val::str("")}},
  };
  return m[t];
}

// A leaf: literal or variable (appended to the tuple).
static Instr leaf(mc::Ctx &c, T t, const Val &v, Row &row, bool var) {
  (void)c;
  if (!var) return iConst(v, t);
  row.push_back(v);
  return iVar(t, (int)row.size() - 1);
}

// All typed trees of bounded depth over a set of operators.
static void tree(mc::Ctx &c, const std::vector<const Op *> &set, T t, int depth, Prog &p, Row &row, int &seq) {
  std::vector<const Op *> fit;
  if (depth > 0)
    for (auto *o : set) if (o->ret == t) fit.push_back(o);
  int k = c.choose((int)fit.size() + 1);
  if (k == 0) {
    // leaf values are fixed by position and all different; their form alternates
    ++seq;
    Val v;
    switch (t) {
    case I32: v = Val::i32(seq % 2 ? seq * 3 : -seq); break;
    case I64: v = Val::i64(seq % 2 ? -seq * 5 : (int64_t)seq << 32); break;
    case BOOL: v = seq % 3 == 0 ? Val() : Val::b(seq % 2); break;
    case F64: v = Val::f64(seq * 0.37); break;
    case F32: v = Val::f32(seq * 0.5f); break;
    default: v = Val::str(std::string("abcdefghij").substr(seq % 5) + std::to_string(seq));
    }
    p.push_back(leaf(c, t, v, row, seq % 2));
    return;
  }
  const Op &o = *fit[k - 1];
  for (T a : o.args) tree(c, set, a, depth - 1, p, row, seq);
  p.push_back(iOp(o));
}

// All shapes of binary trees with n leaves.
static void shape(mc::Ctx &c, int n, const std::vector<const Op *> &ops, Prog &p, Row &row, T t) {
  if (n == 1) {
    int i = (int)row.size() + (int)p.size();
    Val v = t == I32 ? Val::i32(i * i + 1) : t == I64 ? Val::i64((int64_t)i * i * 7 - 3) : t == F64 ? Val::f64(i * 1.25 + 0.5) : Val::str(std::string(1, (char)('a' + i % 26)));
    p.push_back(leaf(c, t, v, row, p.size() % 3 == 1));
    return;
  }
  int l = 1 + c.choose(n - 1);
  const Op &o = *ops[c.choose((int)ops.size())];
  shape(c, l, ops, p, row, t);
  shape(c, n - l, ops, p, row, t);
  p.push_back(iOp(o));
}

int main(int argc, char **argv) {
  return mc::mcMain(argc, argv, [] {
    static std::vector<const Op *> all;
    all = opsWhere([](const Op &) { return true; });
    mc::phase("operator-pairs", "every type-compatible pair (outer operator, inner operator at each operand position) on a small value set, with a pending operand below, literals and variables", 3, [](mc::Ctx &c) {
      const Op &o = *all[c.choose((int)all.size())];
      int pos = c.choose((int)o.args.size());
      static std::map<int, std::vector<const Op *>> byRet;
      if (byRet.empty()) for (auto *q : all) byRet[q->ret].push_back(q);
      const Op &in = *c.pick(byRet[o.args[pos]]);
      bool var = c.choose(2);
      Prog p{iConst(Val::str("below"), STR)};
      Row row;
      for (size_t i = 0; i < o.args.size(); ++i) {
        if ((int)i == pos) {
          for (T a : in.args) p.push_back(leaf(c, a, c.pick(few(a)), row, var));
          p.push_back(iOp(in));
        } else {
          p.push_back(leaf(c, o.args[i], c.pick(few(o.args[i])), row, var ^ (i & 1)));
        }
      }
      p.push_back(iOp(o));
      checkProgram(c, p, row);
    });
    static std::map<int, std::vector<const Op *>> nc = {
        {I32, {&op("SUB<i32>"), &op("ADD<i32>"), &op("MOD<i32>")}},
        {I64, {&op("SUB<i64>"), &op("DIV<i64>"), &op("MUL<i64>")}},
        {F64, {&op("SUB<f64>"), &op("DIV<f64>")}},
        {STR, {&op("CONCAT")}},
    };
    mc::phase("tree-shapes", "all binary tree shapes with up to 7 leaves (thorough: 8; strings 9, doubles 8) x all assignments of non-commutative operators, leaves all different, per type", 3, [](mc::Ctx &c) {
      T t = std::vector<T>{STR, I32, I64, F64}[c.choose(4)];
      int max = t == STR ? 9 : t == F64 ? 8 : mc::thorough() ? 8 : 7;
      int n = 2 + c.choose(max - 1);
      Prog p;
      Row row;
      shape(c, n, nc[t], p, row, t);
      checkProgram(c, p, row);
    });
    static std::vector<const Op *> mixed = {&op("SUB<i32>"), &op("CAST<i32,i64>"), &op("CAST<i64,f64>"), &op("SUB<f64>"), &op("SUBSTR3"), &op("CONCAT"), &op("LT<i32>"),
                                            &op("EQ<str>"), &op("AND"), &op("CAST<str,i32>"), &op("CAST<i32,str>"), &op("IS_NULL<bool>"), &op("CAST<i32,bool>")};
    mc::phase("typed-trees", "all well-typed expression trees of depth <= 3 over operators that cross all types", 4, [](mc::Ctx &c) {
      T t = std::vector<T>{I32, BOOL, STR, F64, I64}[c.choose(5)];
      Prog p{iConst(Val::i64(-77), I64)};
      Row row;
      int seq = 0;
      int depth = c.choose(4);
      c.choose(1);
      c.choose(1);
      tree(c, mixed, t, depth, p, row, seq);
      checkProgram(c, p, row);
    });
    static std::vector<const Op *> mixed3 = {&op("SUB<i32>"), &op("CAST<i32,str>"), &op("SUBSTR2"), &op("LT<i32>"), &op("AND"), &op("CAST<str,bool>")};
    static std::vector<const Op *> mixed4 = {&op("SUB<i32>"), &op("CAST<i32,str>"), &op("SUBSTR2"), &op("CAST<str,i32>")};
    auto typed3 = [](const char *name, const char *rule, const std::vector<const Op *> *set, std::vector<T> roots, int depth) {
      mc::phase(name, rule, 6, [=](mc::Ctx &c) {
        T t = c.pick(roots);
        Prog p;
        Row row;
        int seq = 0;
        for (int i = 0; i < 5; ++i) c.choose(1);
        tree(c, *set, t, depth, p, row, seq);
        checkProgram(c, p, row);
      });
    };
    typed3("typed-trees-3", "all well-typed expression trees of depth <= 3 over SUB, CAST (three kinds), SUBSTR, LT, AND", &mixed3, {I32, BOOL, STR}, 3);
    if (mc::thorough())
      typed3("typed-trees-4", "all well-typed expression trees of depth <= 4 over SUB, CAST (both ways), SUBSTR", &mixed4, {I32, STR}, 4);
    mc::phase("deep-chains", "left-nested, right-nested, zig-zag and balanced trees of every size up to 400 and of selected sizes up to 300000 operands, and right-nested chains mixing types", 2, [](mc::Ctx &c) {
      int kind = c.choose(5);
      static const std::vector<int> big = mc::sizes(402, 131073, {300000});
      int i = c.choose(400 + (int)big.size());
      int n = i < 400 ? i + 2 : big[i - 400];
      Prog p;
      Row row{Val::i64(1000003), Val::str("v")};
      const Op &sub = op("SUB<i64>");
      auto lf = [&](int k) { p.push_back(k % 3 == 2 ? iVar(I64, 0) : iConst(Val::i64((int64_t)k * k * 7919 % 100003 - 50000), I64)); };
      if (kind == 0) {
        lf(0);
        for (int k = 1; k < n; ++k) { lf(k); p.push_back(iOp(sub)); }
      } else if (kind == 1) {
        for (int k = 0; k < n; ++k) lf(k);
        for (int k = 1; k < n; ++k) p.push_back(iOp(sub));
      } else if (kind == 2) {  // zig-zag: a - ((b - (...)) - c)
        for (int k = 0; k < n / 2 + 1; ++k) lf(k);
        for (int k = 0; k < n / 2; ++k) {
          p.push_back(iOp(sub));
          if (k % 2) { lf(n + k); p.push_back(iOp(sub)); }
        }
      } else if (kind == 3) {  // balanced
        std::function<void(int, int)> bal = [&](int a, int b) {
          if (b - a == 1) { lf(a); return; }
          int m = (a + b) / 2;
          bal(a, m);
          bal(m, b);
          p.push_back(iOp(sub));
        };
        bal(0, n);
      } else {  // pending strings and integers, consumed from the top
        if (n > 2000) n = 2000;
        for (int k = 0; k < n; ++k) p.push_back(k % 2 ? iVar(STR, 1) : iConst(Val::i32(k), I32));
        p.push_back(iConst(Val::str("."), STR));
        for (int k = n - 1; k >= 0; --k) {
          if (k % 2 == 0) {
            p.push_back(iConst(Val::i32(1), I32));
            p.push_back(iOp(op("LEFT")));
            p.push_back(iOp(op("CAST<i32,str>")));
            p.push_back(iOp(op("SUB<i32>")));
            p.push_back(iOp(op("CAST<str,i32>")));
          } else {
            p.push_back(iOp(op("CONCAT")));
          }
        }
      }
      checkProgram(c, p, row);
    });
    mc::phase("concatenated-programs", "all sequences of up to 6 expressions (thorough: 7) from 8 different ones, concatenated into one program: all results in order, last one single", 3, [](mc::Ctx &c) {
      static std::vector<Prog> exprs = {
          {iVar(I32, 0)},
          {iConst(Val::i64(-5), I64)},
          {iConst(Val(), STR)},
          {iVar(I32, 0), iConst(Val::i32(4), I32), iOp(op("SUB<i32>"))},
          {iConst(Val::str("left"), STR), iVar(STR, 1), iOp(op("CONCAT"))},
          {iConst(Val::i32(1), I32), iVar(I32, 0), iConst(Val::i32(2), I32), iOp(op("SUB<i32>")), iOp(op("LT<i32>"))},
          {iConst(Val::b(true), BOOL), iConst(Val(), BOOL), iOp(op("AND"))},
          {iVar(STR, 1), iConst(Val::i32(1), I32), iConst(Val::i32(3), I32), iOp(op("SUBSTR3"))},
      };
      int n = 1 + c.choose(mc::thorough() ? 7 : 6);
      Prog p;
      c.choose(1);
      for (int i = 0; i < n; ++i) {
        const Prog &e = exprs[c.choose((int)exprs.size())];
        p.insert(p.end(), e.begin(), e.end());
      }
      Row row{Val::i32(11), Val::str("right")};
      checkProgram(c, p, row);
    });
    mc::phase("many-results", "n concatenated constants, variables and operators for every n up to 300 and selected larger n", 2, [](mc::Ctx &c) {
      int kind = c.choose(3);
      static const std::vector<int> big = mc::sizes(301, 131073);
      int i = c.choose(300 + (int)big.size());
      int n = i < 300 ? i + 1 : big[i - 300];
      Prog p;
      Row row{Val::i32(9), Val::str("s"), Val()};
      for (int k = 0; k < n; ++k) {
        if (kind == 0) p.push_back(iConst(Val::i32(k * 3), I32));
        else if (kind == 1) p.push_back(k % 3 == 0 ? iVar(I32, 0) : k % 3 == 1 ? iVar(STR, 1) : iVar(F64, 2));
        else { p.push_back(iConst(Val::i32(k), I32)); p.push_back(iVar(I32, 0)); p.push_back(iOp(op("SUB<i32>"))); }
      }
      checkProgram(c, p, row);
    });
  });
}
