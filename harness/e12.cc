// E12: an evaluator's result depends only on its program and bound tuple. Histories of API calls over one and two
// evaluators, explored exhaustively, against a reference that knows only "last program" and "bound tuple".
#include "exprcheck.h"
#include "refdecode.h"
using namespace ec;

struct World {
  static constexpr int kTuples = 3;
  Row rows[kTuples];
  std::unique_ptr<expr::Tuple> tuples[kTuples];
  struct Ev {
    std::unique_ptr<expr::Runner> r;
    int prog = -1;    // -1: none yet, -2: the last decode failed
    int bound = -1;
    int ran = -1;     // -1: nothing to read; else 1 value available, 2 last run raised
    Row stack;        // results of the last run
  } ev[2];
  std::vector<std::pair<expr::Operand, Val>> handed;
  std::vector<std::pair<expr::Tuple *, Row>> handedAll;
  ~World() {
    for (auto &h : handedAll) delete h.first;
  }
};

static std::vector<Prog> g_progs;
static std::vector<Bytes> g_bad;

static void reset(World &w) {
  w.rows[0] = {Val::i32(10), Val::str("first"), Val::i64(5)};
  w.rows[1] = {Val::i32(-3), Val::str(""), Val::i64(1LL << 40)};  // CAST_C of [2] raises
  w.rows[2] = {Val(), Val::str("third tuple, a rather long string"), Val()};
  for (int i = 0; i < World::kTuples; ++i) w.tuples[i].reset(new expr::Tuple(real::toTuple(w.rows[i])));
  for (auto &e : w.ev) e.r.reset(new expr::Runner());
}


int main(int argc, char **argv) {
  return mc::mcMain(argc, argv, [] {
    g_progs = {
        {iConst(Val::i32(7), I32)},
        {iVar(I32, 0), iConst(Val::i32(4), I32), iOp(op("SUB<i32>"))},
        {iVar(I64, 2), iOp(op("CAST_C<i32,i64>"))},
        {iConst(Val::str("A-"), STR), iVar(STR, 1), iOp(op("CONCAT")), iOp(op("UPPER"))},
        {iVar(STR, 1), iConst(Val::i32(1), I32), iVar(I32, 0), iOp(op("MID3")), iVar(I32, 0), iVar(I64, 2), iOp(op("CAST_C<i32,i64>"))},
        {},
    };
    Bytes trunc = encode(g_progs[1]);
    trunc.pop_back();
    g_bad = {encConst(Val::str("x")) + Bytes(1, 0x7F), trunc};
    auto body = [](mc::Ctx &c, int depth, int evs, bool full) {
      World w;
      reset(w);
      std::string hist;
      // p5, the empty program, is p4 of the smaller set
      const int P = full ? (int)g_progs.size() : 5;
      // per evaluator: decode each program, a bad one (2), bind each tuple, run+read, read all, replace evaluator; global: mutate a tuple
      const int perEv = P + 2 + World::kTuples + 1 + 1 + 1;
      const int n = evs * perEv + 2;
      auto verifyHanded = [&] {
        for (auto &h : w.handed)
          if (!real::equals(h.first, Out::of(h.second))) c.fail(hist + ": a result handed out earlier is now " + show(real::fromOperand(h.first)) + ", was " + show(h.second));
        for (auto &h : w.handedAll)
          for (size_t i = 0; i < h.second.size(); ++i)
            if (!real::equals((*h.first)[i], Out::of(h.second[i]))) c.fail(hist + ": results handed out earlier changed");
      };
      auto runAndCheck = [&](int x) {
        auto &e = w.ev[x];
        if (e.prog == -1) return;  // nothing decoded: Get() has nothing to give
        Result r = real::run(*e.r);
        c.steps();
        if (e.prog == -2) return;  // program undefined after a failed decode; must only be safe
        if (g_progs[e.prog].empty()) {
          if (!r.error) c.fail(hist + ": evaluator " + std::to_string(x) + " gives " + real::show(r) + " for an empty program");
          std::unique_ptr<expr::Tuple> all(e.r->GetAll());
          if (!all->empty()) c.fail(hist + ": evaluator " + std::to_string(x) + " leaves " + std::to_string(all->size()) + " results for an empty program");
          e.stack.clear();
          e.ran = 1;
          return;
        }
        Eval want;
        if (e.bound < 0) {
          bool var = false;
          for (auto &i : g_progs[e.prog]) var = var || i.k == Instr::Var;
          if (var) want.kind = Out::Error;
          else want = eval(g_progs[e.prog], nullptr);
        } else {
          want = eval(g_progs[e.prog], &w.rows[e.bound]);
        }
        c.outcome(want.kind == Out::Value ? hashRow(want.stack) : 1);
        if (want.kind == Out::Error) {
          if (!r.error) c.fail(hist + ": evaluator " + std::to_string(x) + " gives " + real::show(r) + ", expected an error");
        } else {
          if (!real::agrees(r, Out::of(want.stack.back()))) c.fail(hist + ": evaluator " + std::to_string(x) + " gives " + real::show(r) + ", expected " + show(want.stack.back()));
          std::unique_ptr<expr::Tuple> all(e.r->GetAll());
          if (all->size() != want.stack.size()) c.fail(hist + ": evaluator " + std::to_string(x) + " leaves " + std::to_string(all->size()) + " results, expected " + std::to_string(want.stack.size()));
          w.handed.push_back({r.v, want.stack.back()});
          e.stack = want.stack;
        }
        e.ran = r.error ? 2 : 1;
        for (int t = 0; t < World::kTuples; ++t)
          for (size_t i = 0; i < w.rows[t].size(); ++i)
            if (!real::equals((*w.tuples[t])[i], Out::of(w.rows[t][i]))) c.fail(hist + ": tuple " + std::to_string(t) + " was modified");
      };
      for (int d = 0; d < depth; ++d) {
        int k = c.choose(n);
        c.note(hist);
        if (k < evs * perEv) {
          int x = k / perEv, o = k % perEv;
          auto &e = w.ev[x];
          std::string who = evs > 1 ? (x ? "B." : "A.") : "";
          if (o < P) {
            if (!full && o == 4) o = 5;
            hist += who + "decode(p" + std::to_string(o) + ") ";
            Bytes bytes = encode(g_progs[o]);
            if (g_progs[o].empty() && d % 2) bytes.push_back(0);  // nothing at all, or only the end marker
            Code code(bytes);  // freed right after: decoding must not keep pointers into the bytes
            try { e.r->Decode(code.data(), code.size()); } catch (const std::exception &ex) { c.fail(hist + "raised " + ex.what()); }
            e.prog = o;
            e.ran = -1;
          } else if ((o -= P) < 2) {
            hist += who + "decode(bad" + std::to_string(o) + ") ";
            Code code(g_bad[o]);
            bool raised = false;
            try { e.r->Decode(code.data(), code.size()); } catch (const std::exception &) { raised = true; }
            if (!raised && o == 0) c.fail(hist + "is accepted");
            e.prog = -2;
            e.ran = -1;
          } else if ((o -= 2) < World::kTuples) {
            hist += who + "bind(t" + std::to_string(o) + ") ";
            e.r->BindTuple(w.tuples[o].get());
            e.bound = o;
          } else if ((o -= World::kTuples) == 0) {
            hist += who + "run ";
            runAndCheck(x);
          } else if (o == 1) {
            hist += who + "all ";
            if (e.ran == 1) {
              expr::Tuple *all = e.r->GetAll();
              w.handedAll.push_back({all, e.stack});
              if (all->size() != e.stack.size()) c.fail(hist + ": " + std::to_string(all->size()) + " results, expected " + std::to_string(e.stack.size()));
            }
          } else {
            hist += who + "renew ";
            e.r.reset(new expr::Runner());
            e.prog = -1;
            e.bound = -1;
            e.ran = -1;
          }
          c.steps();
        } else if (k == evs * perEv) {
          hist += "set(t0) ";
          w.rows[0][0] = Val::i32((int)w.rows[0][0].i + 100);
          w.rows[0][1] = Val::str(w.rows[0][1].s + "!");
          *w.tuples[0] = real::toTuple(w.rows[0]);  // same tuple object, new content
        } else {
          hist += "set(t1) ";
          w.rows[1][2] = w.rows[1][2].i > 100 ? Val::i64(12) : Val::i64(1LL << 40);
          *w.tuples[1] = real::toTuple(w.rows[1]);
        }
        verifyHanded();
        uint64_t h = 3;
        for (auto &e : w.ev) h = mc::mix(mc::mix(mc::mix(h, e.prog + 5), e.bound + 5), e.ran + 5);
        for (auto &r : w.rows) h = hashRow(r, h);
        c.state(h);
      }
      // every evaluator answers as a fresh one would
      for (int x = 0; x < evs; ++x) {
        hist += "| run ";
        runAndCheck(x);
        if (w.ev[x].ran == 1) {
          runAndCheck(x);
        }
      }
      for (auto &e : w.ev) e.r.reset();
      for (auto &t : w.tuples) t.reset();
      verifyHanded();
      if (c.wantSample()) c.sample(hist);
    };
    mc::phase("one-evaluator", "all histories of 5 calls (thorough: 6) from {decode p0..p5 (p5 is empty), decode 2 malformed, bind t0..t2, run and read, read all, replace the evaluator, change the content of t0 / t1}", 2,
              [=](mc::Ctx &c) { body(c, mc::thorough() ? 6 : 5, 1, true); });
    mc::phase("two-evaluators", "all interleaved histories of 4 calls (thorough: 5) on two evaluators sharing tuples", 2,
              [=](mc::Ctx &c) { body(c, mc::thorough() ? 5 : 4, 2, false); });
    mc::phase("long-histories", "each program x patterns of 70000 runs (thorough: 300000) on three tuples: bound before every run, at runs whose distance grows by one each time, or once while its content changes; decoded again never, every 100 runs, or every run (10000)", 2, [](mc::Ctx &c) {
      int p = c.choose(5), bind = c.choose(3), dec = c.choose(3);
      World w;
      reset(w);
      int n = dec == 2 ? 10000 : mc::thorough() ? 300000 : 70000;
      expr::Runner &r = *w.ev[0].r;
      int cur = p, t = 0, gap = 1, left = 1;
      std::string h = "p" + std::to_string(p) + " bind " + std::to_string(bind) + " decode " + std::to_string(dec);
      auto decode = [&] {
        Code code(encode(g_progs[cur]));
        r.Decode(code.data(), code.size());
      };
      decode();
      r.BindTuple(w.tuples[0].get());
      for (int i = 0; i < n; ++i) {
        if (dec && i % (dec == 1 ? 100 : 1) == 0) { cur = (p + i / (dec == 1 ? 100 : 1)) % 5; decode(); }
        if (bind == 0) { t = i * i % 3; r.BindTuple(w.tuples[t].get()); }
        else if (bind == 1) { if (--left == 0) { left = ++gap; t = (t + 1) % 3; r.BindTuple(w.tuples[t].get()); } }
        else {
          w.rows[0][0] = i % 4 == 3 ? Val() : Val::i32(i % 1000);
          w.rows[0][2] = i % 5 == 2 ? Val::i64(1LL << 40) : Val::i64(i);
          (*w.tuples[0])[0] = real::toOperand(w.rows[0][0]);
          (*w.tuples[0])[2] = real::toOperand(w.rows[0][2]);
        }
        Result x = real::run(r);
        c.steps();
        Eval want = eval(g_progs[cur], &w.rows[t]);
        Out o = want.kind == Out::Error ? Out::error() : Out::of(want.stack.back());
        if (!real::agrees(x, o)) c.fail(h + ": run " + std::to_string(i) + " of p" + std::to_string(cur) + " on " + ref::show(w.rows[t]) + " gives " + real::show(x) + ", expected " + show(o));
        if ((i & 1023) == 0) c.tick();
      }
      c.state(mc::hashStr(h));
    });
    mc::phase("content-histories", "4 programs (one, three, six results, operators over all elements), 0 to 64 further results below, x all histories of 4 (thorough: 5; with 1, 12 or 64 below one less) changes from {set element 0, 1 or 2 of the bound tuple to NULL or one of 2 values, replace its storage, bind it again, bind a second tuple, bind the first one}; after each the program is run, and the last result, all results, again the last, and again all results are read", 2, [](mc::Ctx &c) {
      static const std::vector<Prog> ps = {
          {iVar(I32, 0)},
          {iVar(I32, 0), iVar(STR, 1), iVar(I64, 2)},
          {iVar(I64, 2), iVar(STR, 1), iVar(I32, 0), iConst(Val::i32(2), I32), iOp(op("ADD<i32>")), iVar(STR, 1), iVar(I32, 0), iVar(I64, 2)},
          {iVar(STR, 1), iVar(I32, 0), iOp(op("IS_NULL<i32>")), iVar(I64, 2), iConst(Val::i64(3), I64), iOp(op("MUL<i64>"))},
      };
      static const std::vector<int> below = {0, 1, 4, 12, 64};
      static const std::vector<Val> vals[3] = {{Val(), Val::i32(1), Val::i32(-20)}, {Val(), Val::str("a text which is kept on the heap"), Val::str("")}, {Val(), Val::i64(7), Val::i64(INT64_MIN)}};
      int pi = c.choose((int)ps.size());
      int nb = c.pick(below);
      Prog p;
      for (int i = 0; i < nb; ++i) p.push_back(iConst(Val::i32(i), I32));
      p.insert(p.end(), ps[pi].begin(), ps[pi].end());
      Row rows[2] = {{Val(), vals[1][1], Val::i64(7)}, {Val::i32(5), Val(), Val()}};
      expr::Tuple ts[2] = {real::toTuple(rows[0]), real::toTuple(rows[1])};
      expr::Runner r;
      {
        Code code(encode(p));
        r.Decode(code.data(), code.size());
      }
      int cur = 0;
      r.BindTuple(&ts[0]);
      std::string h = show(p).substr(0, 200) + ":";
      auto check = [&] {
        Eval want = eval(p, &rows[cur]);
        Result x = real::run(r);
        c.steps();
        for (int k = 0; k < 2; ++k) {
          if (!real::agrees(x, Out::of(want.stack.back()))) c.fail(h + " the result is " + real::show(x) + ", expected " + show(want.stack.back()));
          std::unique_ptr<expr::Tuple> all(r.GetAll());
          if (all->size() != want.stack.size()) c.fail(h + " there are " + std::to_string(all->size()) + " results, expected " + std::to_string(want.stack.size()));
          for (size_t i = 0; i < all->size(); ++i)
            if (!real::equals((*all)[i], Out::of(want.stack[i]))) c.fail(h + " result " + std::to_string(i) + " is " + show(real::fromOperand((*all)[i])) + ", expected " + show(want.stack[i]));
          try { x.v = r.Get(); } catch (const std::exception &e) { c.fail(h + " reading the result again raised " + e.what()); }
        }
        for (int i = 0; i < 3; ++i)
          if (!real::equals(ts[cur][i], Out::of(rows[cur][i]))) c.fail(h + " the tuple was modified");
      };
      check();
      int depth = (mc::thorough() ? 5 : 4) - (nb != 0 && nb != 4);
      for (int d = 0; d < depth; ++d) {
        int k = c.choose(13);
        if (k < 9) {
          rows[cur][k / 3] = vals[k / 3][k % 3];
          ts[cur][k / 3] = real::toOperand(rows[cur][k / 3]);
          h += " set $" + std::to_string(k / 3) + "=" + show(rows[cur][k / 3]);
        } else if (k == 9) {
          expr::Tuple other = real::toTuple(rows[cur]);
          ts[cur].swap(other);
          h += " new storage";
        } else if (k == 10) {
          r.BindTuple(&ts[cur]);
          h += " bind again";
        } else {
          cur = k - 11;
          r.BindTuple(&ts[cur]);
          h += " bind t" + std::to_string(cur);
        }
        check();
        c.state(hashRow(rows[0], hashRow(rows[1], mc::mix(cur, pi * 100 + nb))));
      }
    });
    mc::phase("many-evaluators", "n evaluators alive at once, for n in 1..40 and around the powers of two and ten to 4096 (thorough: 65537), sharing tuples or with one each, all decoded, all bound, all run, then all read (each step forwards or backwards); then every third one is replaced or decoded again and all run and read once more", 2, [](mc::Ctx &c) {
      static const std::vector<int> big = mc::sizes(41, mc::thorough() ? 65537 : 4097);
      int i = c.choose(40 + (int)big.size());
      int n = i < 40 ? i + 1 : big[i - 40], order = c.choose(8), shared = c.choose(2), how = c.choose(3);
      std::vector<std::unique_ptr<expr::Runner>> ev(n);
      std::vector<Prog> ps(n);
      std::vector<Row> rows(shared ? std::min(n, 3) : n);
      std::vector<expr::Tuple> ts(rows.size());
      for (size_t k = 0; k < rows.size(); ++k) {
        rows[k] = {k % 7 == 5 ? Val() : Val::i32((int)k * 3), Val::str("t" + std::to_string(k)), k % 11 == 4 ? Val::i64(1LL << 40) : Val::i64((int)k)};
        ts[k] = real::toTuple(rows[k]);
      }
      auto tupleOf = [&](int k) { return k % (int)rows.size(); };
      auto at = [&](int k, int bit) { return order >> bit & 1 ? n - 1 - k : k; };
      auto decode = [&](int k, int salt) {
        switch ((k + salt) % 5) {
        case 0: ps[k] = {iConst(Val::i32(k + salt), I32)}; break;
        case 1: ps[k] = {iVar(I32, 0), iConst(Val::i32(k), I32), iOp(op("SUB<i32>"))}; break;
        case 2: ps[k] = {iConst(Val::str("e" + std::to_string(k + salt)), STR), iVar(STR, 1), iOp(op("CONCAT"))}; break;
        case 3: ps[k] = {iVar(I64, 2), iOp(op("CAST_C<i32,i64>"))}; break;
        default: ps[k] = {iVar(STR, 1), iOp(op("UPPER")), iVar(I64, 2), iConst(Val::i64(k), I64), iOp(op("MUL<i64>"))};
        }
        Code code(encode(ps[k]));
        ev[k]->Decode(code.data(), code.size());
        code.scribble();
      };
      std::string h = std::to_string(n) + " evaluators, order " + std::to_string(order) + (shared ? ", shared tuples" : "");
      c.note(h);
      for (int k = 0; k < n; ++k) ev[k].reset(new expr::Runner());
      for (int k = 0; k < n; ++k) decode(at(k, 0), 0);
      for (int k = 0; k < n; ++k) ev[at(k, 1)]->BindTuple(&ts[tupleOf(at(k, 1))]);
      auto runAndRead = [&](const char *when) {
        std::vector<char> raised(n);
        for (int j = 0; j < n; ++j) {
          int k = at(j, 2);
          try { ev[k]->Run(); } catch (const std::exception &) { raised[k] = 1; }
          c.steps();
        }
        c.tick();
        for (int j = 0; j < n; ++j) {
          int k = at(j, 0);
          Eval want = eval(ps[k], &rows[tupleOf(k)]);
          if ((want.kind == Out::Error) != (bool)raised[k]) c.fail(h + ": evaluator " + std::to_string(k) + " " + when + (raised[k] ? " raised" : " did not raise"));
          if (raised[k]) continue;
          std::unique_ptr<expr::Tuple> all(ev[k]->GetAll());
          bool ok = all->size() == want.stack.size();
          for (size_t x = 0; ok && x < all->size(); ++x) ok = real::equals((*all)[x], Out::of(want.stack[x]));
          if (!ok || !real::equals(ev[k]->Get(), Out::of(want.stack.back())))
            c.fail(h + ": evaluator " + std::to_string(k) + " " + when + " gives " + show(real::fromOperand(ev[k]->Get())) + ", expected " + show(want.stack.back()) + " by " + show(ps[k]));
        }
        c.tick();
      };
      runAndRead("at first");
      for (int k = 0; k < n; k += 3) {
        if (how == 0) {
          ev[k].reset(new expr::Runner());
          decode(k, 7);
          ev[k]->BindTuple(&ts[tupleOf(k)]);
        } else if (how == 1) {
          decode(k, 8);
        } else {
          ev[k].reset();
          ev[k].reset(new expr::Runner());
          try {
            Code code(g_bad[k % 2]);
            ev[k]->Decode(code.data(), code.size());
            c.fail("malformed code accepted");
          } catch (const std::exception &) {
          }
          decode(k, 9);
          ev[k]->BindTuple(&ts[tupleOf(k)]);
        }
      }
      runAndRead("after some were replaced");
      c.state(mc::mix(n, order * 100 + shared * 10 + how));
    });
    mc::phase("program-pairs", "an evaluator that ran any operator of the language on any operands (including ones that raise) is decoded again with any other: result as fresh; and the first run repeated gives an equal result", 2, [](mc::Ctx &c) {
      const Op &a = ops()[c.choose((int)ops().size())];
      const Op &b = ops()[c.choose((int)ops().size())];
      Row ta, tb;
      Val va[3], vb[3];
      bool low = c.choose(2);
      for (size_t i = 0; i < a.args.size(); ++i) va[i] = low ? dom(a.args[i], 0).back() : dom(a.args[i], 0)[1];
      for (size_t i = 0; i < b.args.size(); ++i) vb[i] = dom(b.args[i], 0)[1];
      expr::Runner r;
      Bytes ca = codeOf(a, va, low ? 7 : 0, ta), cb = codeOf(b, vb, low ? 0 : 7, tb);
      expr::Tuple xa = real::toTuple(ta), xb = real::toTuple(tb);
      {
        Code code(ca);
        r.Decode(code.data(), code.size());
      }
      r.BindTuple(&xa);
      Out wa = a.apply(va), wb = b.apply(vb);
      Result r1 = real::run(r), r2 = real::run(r);
      {
        Code code(cb);
        r.Decode(code.data(), code.size());
      }
      r.BindTuple(&xb);
      Result r3 = real::run(r);
      c.steps(3);
      c.state(mc::hashBytes(ca.data(), ca.size(), mc::hashBytes(cb.data(), cb.size())));
      if (!real::agrees(r1, wa) || !real::agrees(r2, wa)) c.fail(showCall(a, va, 0) + " run twice gives " + real::show(r1) + " and " + real::show(r2) + ", expected " + show(wa));
      if (!real::agrees(r3, wb)) c.fail(showCall(b, vb, 0) + " after " + showCall(a, va, 0) + " gives " + real::show(r3) + ", expected " + show(wb));
      std::unique_ptr<expr::Tuple> all(r3.error ? nullptr : r.GetAll());
      if (all && all->size() != 1) c.fail(showCall(b, vb, 0) + " after " + showCall(a, va, 0) + " leaves " + std::to_string(all->size()) + " results");
    });
  });
}
