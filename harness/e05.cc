// E05: three-valued logic.
#include "exprcheck.h"
#include "rel/rel_runner.h"
using namespace ec;

// A leaf with truth value v (0, 1, -1 = NULL) in one of several forms.
static void leaf(int v, int form, Prog &p, Row &row) {
  switch (form) {
  case 0: p.push_back(iConst(v < 0 ? Val() : Val::b(v), BOOL)); break;
  case 1:
    row.push_back(v < 0 ? Val() : Val::b(v));
    p.push_back(iVar(BOOL, (int)row.size() - 1));
    break;
  case 2:  // predicate on a variable
    row.push_back(v < 0 ? Val() : Val::i32(v ? 5 : 6));
    p.push_back(iVar(I32, (int)row.size() - 1));
    p.push_back(iConst(Val::i32(5), I32));
    p.push_back(iOp(op("EQ<i32>")));
    break;
  case 3:  // cast
    row.push_back(v < 0 ? Val() : Val::f64(v ? -0.5 : 0.0));
    p.push_back(iVar(F64, (int)row.size() - 1));
    p.push_back(iOp(op("CAST<bool,f64>")));
    break;
  default:  // string comparison
    p.push_back(v < 0 ? iConst(Val(), STR) : iConst(Val::str(v ? "b" : "a"), STR));
    p.push_back(iConst(Val::str("b"), STR));
    p.push_back(iOp(op("GE<str>")));
  }
}

struct Gen {
  mc::Ctx &c;
  int form;    // 0..4: all leaves in that form; 5: rotating
  int notMode; // 0 none, 1 at leaves, 2 anywhere
  Prog p;
  Row row;
  int n = 0;
  void build(int leaves) {
    if (leaves == 1) {
      int v = c.choose(3) - 1;
      leaf(v, form < 5 ? form : n % 5, p, row);
      ++n;
      if (notMode && c.choose(2)) p.push_back(iOp(op("NOT")));
      return;
    }
    int l = 1 + c.choose(leaves - 1);
    bool isAnd = c.choose(2);
    build(l);
    build(leaves - l);
    p.push_back(iOp(op(isAnd ? "AND" : "OR")));
    if (notMode == 2 && c.choose(2)) p.push_back(iOp(op("NOT")));
  }
};

// Also observed the way users see it: through a filter and through the truth tests.
static void observe(mc::Ctx &c, const Prog &p, const Row &row) {
  Eval e = eval(p, &row);
  const Val &v = e.stack.back();
  Bytes f(1, 0x71);
  f += encode(p);
  f.push_back(0);
  Code code(f);
  dingodb::rel::RelRunner rel;
  rel.Decode(code.data(), code.size());
  auto *in = new expr::Tuple(real::toTuple(row));
  const expr::Tuple *out = rel.Put(in);
  bool passed = out != nullptr;
  delete out;
  c.steps();
  if (passed != (!v.isNull() && v.i)) c.fail("filter " + show(p) + (passed ? " passes " : " rejects ") + show(row) + " although the predicate is " + show(v));
  for (auto n : {"IS_NULL<bool>", "IS_TRUE<bool>", "IS_FALSE<bool>"}) {
    Prog q = p;
    q.push_back(iOp(op(n)));
    checkProgram(c, q, row);
  }
}

int main(int argc, char **argv) {
  return mc::mcMain(argc, argv, [] {
    auto phase = [](const char *name, const char *rule, int lo, int hi, int notMode, std::vector<int> forms, bool obs) {
      mc::phase(name, rule, 4, [=](mc::Ctx &c) {
        Gen g{c, c.pick(forms), notMode, {}, {}};
        int n = lo + c.choose(hi - lo + 1);
        c.choose(1);
        g.build(n);
        checkProgram(c, g.p, g.row);
        if (obs) observe(c, g.p, g.row);
      });
    };
    phase("all-trees-3", "all AND/OR/NOT trees with up to 3 leaves, NOT at every node, leaves TRUE/FALSE/NULL as literal, variable, comparison, cast, string comparison and mixed; also seen through a filter and IS_NULL/IS_TRUE/IS_FALSE", 1, 3, 2, {0, 1, 2, 3, 4, 5}, true);
    phase("all-trees-4", "all trees with 4 leaves and NOT at every node; literal and mixed leaves", 4, 4, 2, mc::thorough() ? std::vector<int>{0, 1, 2, 3, 4, 5} : std::vector<int>{0, 5}, false);
    phase("and-or-trees-5", "all AND/OR trees with 5 leaves", 5, 5, 0, {0, 1, 5}, false);
    if (mc::thorough()) {
      phase("leaf-not-trees-5", "all AND/OR trees with 5 leaves, NOT at leaves", 5, 5, 1, {0, 5}, false);
      phase("and-or-trees-6", "all AND/OR trees with 6 leaves", 6, 6, 0, {0, 1, 5}, false);
      phase("all-trees-5", "all trees with 5 leaves and NOT at every node", 5, 5, 2, {1}, false);
    }
    mc::phase("long-chains", "AND chains and OR chains (left and right nested) of every length up to 200 with one deviating leaf at every position", 2, [](mc::Ctx &c) {
      int n = 2 + c.choose(mc::thorough() ? 199 : 79);
      int kind = c.choose(12);  // op, nesting, deviating value
      bool isAnd = kind & 1, left = kind & 2;
      int dev = kind / 4 - 1, pos = c.choose(n);
      Prog p;
      Row row;
      for (int k = 0; k < n; ++k) {
        leaf(k == pos ? dev : isAnd, k % 2, p, row);
        if (left && k) p.push_back(iOp(op(isAnd ? "AND" : "OR")));
      }
      if (!left) for (int k = 1; k < n; ++k) p.push_back(iOp(op(isAnd ? "AND" : "OR")));
      checkProgram(c, p, row);
    });
  });
}
