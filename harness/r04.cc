// R04: grouped aggregation.
#include "pool.h"
#include "relref.h"
using namespace rr;

static const AggSpec kAll{AggSpec::CountAll, NUL, 0};

int main(int argc, char **argv) {
  return mc::mcMain(argc, argv, [] {
    // Rows whose keys collide under weak hashing or concatenation.
    static std::vector<Row> ints, strs, mixed, reals;
    for (auto &a : {Val(), Val::i32(0), Val::i32(1), Val::i32(31)})
      for (auto &b : {Val(), Val::i32(0), Val::i32(31), Val::i32(-31)}) ints.push_back({a, b, Val::i64(1 + (int64_t)ints.size() * 10)});
    for (auto &p : std::vector<std::pair<const char *, const char *>>{{"a", "bc"}, {"ab", "c"}, {"abc", ""}, {"", "abc"}, {"", ""}, {"a", "b"}, {"b", "a"}}) strs.push_back({Val::str(p.first), Val::str(p.second), Val::i64((int64_t)strs.size() + 1)});
    strs.push_back({Val::str(std::string("a\0", 2)), Val::str("b"), Val::i64(100)});
    strs.push_back({Val(), Val::str("abc"), Val::i64(200)});
    strs.push_back({Val::str("abc"), Val(), Val::i64(300)});
    strs.push_back({Val::str("null"), Val(), Val::i64(400)});
    mixed = {{Val::i32(1), Val::b(true), Val::i64(1)}, {Val::i32(1), Val::b(false), Val::i64(2)}, {Val::i32(1), Val(), Val::i64(4)}, {Val(), Val::b(true), Val::i64(8)}, {Val(), Val(), Val::i64(16)}, {Val::i32(0), Val::b(true), Val::i64(32)}, {Val::i32(0), Val::b(false), Val()}};
    reals = {{Val::f64(0.0), Val::f32(1), Val::i64(1)}, {Val::f64(-0.0), Val::f32(1), Val::i64(2)}, {Val::f64(1.0), Val::f32(0), Val::i64(4)}, {Val::f64(1.0), Val::f32(-0.0f), Val::i64(8)}, {Val::f64(1.0000000000000002), Val::f32(0), Val::i64(16)}, {Val(), Val::f32(0), Val::i64(32)}, {Val::f64(INFINITY), Val::f32(INFINITY), Val::i64(64)}};
    static const std::vector<std::vector<int>> keysets = {{0}, {1}, {0, 1}, {1, 0}, {}, {0, 0}, {1, 1, 0}, {0, 1, 2}};
    int L = mc::thorough() ? 6 : 5;
    mc::phase("sequences", "4 row sets (integers colliding under 31*h+x, string splits, booleans and NULLs, real zeros) x 8 key lists (none, one, two in both orders, repeated, three) x all row sequences up to length 5 (thorough: 6; large sets shorter), drained, then a second batch", 3, [=](mc::Ctx &c) {
      int s = c.choose(4);
      const std::vector<Row> &rows = s == 0 ? ints : s == 1 ? strs : s == 2 ? mixed : reals;
      const std::vector<int> &keys = c.pick(keysets);
      int max = rows.size() > 7 ? L - 1 : L;
      int n = c.choose(max + 1);
      Chain ch{grouped(keys, {{AggSpec::Sum, I64, 2}, kAll})};
      Driver d(c, ch, rr::encode(ch));
      for (int i = 0; i < n; ++i) d.put(c.pick(rows));
      d.drain();
      d.put(rows[0]);
      d.put(rows[1]);
      d.put(rows[0]);
      d.drain();
      if (c.wantSample()) c.sample(d.text());
    });
    mc::phase("all-pairs-distinct", "every pair of rows over wide key domains of each type (and NULL): one group if equal, two if not", 3, [](mc::Ctx &c) {
      T t = kTypes[c.choose(6)];
      const Dom &dm = dom(t, 1, true);
      const Val &a = c.pick(dm);
      const Val &b = c.pick(dm);
      if ((a.t == F32 || a.t == F64) && isnan(asDouble(a))) return;
      if ((b.t == F32 || b.t == F64) && isnan(asDouble(b))) return;
      Chain ch{grouped({0}, {kAll, {AggSpec::Sum, I32, 1}})};
      Driver d(c, ch, rr::encode(ch));
      d.put({a, Val::i32(1)});
      d.put({b, Val::i32(10)});
      d.put({a, Val::i32(100)});
      d.drain();
    });
    mc::phase("long-keys", "string keys of lengths up to 66000 around powers of two, alone and in second place: keys that differ only in their first, middle, last or an added character are different groups, equal ones one", 2, [](mc::Ctx &c) {
      static const std::vector<int> lens = mc::sizes(1, 65537, {22, 23, 24, 66000});
      int n = c.pick(lens), shape = c.choose(3);
      std::string base(n, 'k');
      std::vector<std::string> keys = {base, base + "k", base.substr(1), base + std::string(1, '\0')};
      for (int p : {0, n / 2, n - 1, n / 3})
        for (char ch : {'j', '\0', '\xff'}) { keys.push_back(base); keys.back()[p] = ch; }
      Chain ch{grouped(shape == 0 ? std::vector<int>{0} : shape == 1 ? std::vector<int>{2, 0} : std::vector<int>{0, 2}, {{AggSpec::Sum, I32, 1}, kAll})};
      Driver d(c, ch, rr::encode(ch));
      for (int round = 0; round < 2; ++round)
        for (size_t i = 0; i < keys.size(); ++i) d.put({Val::str(keys[i]), Val::i32((int)i + 1), Val::str("x")});
      d.drain();
    });
    mc::phase("key-places", "string keys of every length 1..70 and around the powers of two to 4096 which differ in one place only (every one; of long ones the ends and the borders of powers of two): as many groups as keys; one or two key columns", 2, [](mc::Ctx &c) {
      static const std::vector<int> big = mc::sizes(71, 4097);
      int i = c.choose(70 + (int)big.size()), shape = c.choose(2);
      int n = i < 70 ? i + 1 : big[i - 70];
      std::string base(n, 'k');
      for (int k = 0; k < n; ++k) base[k] = (char)('b' + k % 23);
      Chain ch{grouped(shape ? std::vector<int>{2, 0} : std::vector<int>{0}, {{AggSpec::Sum, I32, 1}, kAll})};
      Driver d(c, ch, rr::encode(ch));
      const std::vector<int> ps = mc::places(n);
      for (int round = 0; round < 2; ++round) {
        d.put({Val::str(base), Val::i32(-1), Val()});
        for (int p : ps) {
          std::string s = base;
          s[p] ^= 1 << p % 8;
          d.put({Val::str(s), Val::i32(p), Val()});
        }
      }
      d.drain();
    });
    mc::phase("many-aggregates", "groupings with every number of aggregates up to 130 and around the powers of two and ten to 4096, of kinds and columns in turn, three groups, two batches", 2, [](mc::Ctx &c) {
      static const std::vector<int> big = mc::sizes(131, 4097);
      int i = c.choose(131 + (int)big.size());
      int n = i < 131 ? i : big[i - 131];
      static const std::vector<AggSpec> sp = {{AggSpec::Sum, I32, 0}, kAll, {AggSpec::Count, STR, 1}, {AggSpec::Max, I32, 0}, {AggSpec::Min, STR, 1}, {AggSpec::Sum, F64, 2}, {AggSpec::Max, I64, 3}};
      std::vector<AggSpec> list;
      for (int k = 0; k < n; ++k) list.push_back(sp[k % sp.size()]);
      Chain ch{grouped(c.choose(2) ? std::vector<int>{4, 1} : std::vector<int>{4}, list)};
      Driver d(c, ch, rr::encode(ch));
      for (int b = 0; b < 2; ++b) {
        for (int g = 0; g < 3; ++g) {
          d.put({Val::i32(3 + g), Val::str("m"), Val(), Val::i64(-1), Val::i32(g)});
          d.put({Val(), Val::str("m"), Val::f64(0.5), Val(), Val::i32(g)});
          d.put({Val::i32(9 + b), Val(), Val::f64(2), Val::i64(-7), g == 2 ? Val() : Val::i32(g)});
        }
        d.drain();
      }
    });
    mc::phase("aggregates", "each of the 21 aggregates grouped by a key: all assignments of 4 (thorough: 6) values to 2 groups with values from {NULL, a, b}", 3, [](mc::Ctx &c) {
      static const std::vector<AggSpec> specs = allAggs(1);
      const AggSpec &a = c.pick(specs);
      T t = a.k == AggSpec::CountAll ? I32 : a.t;
      Chain ch{grouped({0}, {a})};
      Driver d(c, ch, rr::encode(ch, c.choose(2)));
      for (int i = 0; i < (mc::thorough() ? 6 : 4); ++i) {
        int g = c.choose(2);
        int v = c.choose(3);
        d.put({Val::i64(g), v == 0 ? Val() : dom(t, 0)[v - 1]});
      }
      d.drain();
    });
    mc::phase("partial", "all histories of up to 7 (thorough: 10) of {put a row of group 1, 2, NULL; take one result}: each result is a complete pending group, then that group starts afresh", 2, [](mc::Ctx &c) {
      static const std::vector<Row> rows = {{Val::i32(1), Val::i64(1)}, {Val::i32(2), Val::i64(10)}, {Val(), Val::i64(100)}};
      Chain ch{grouped({0}, {{AggSpec::Sum, I64, 1}})};
      Real r;
      r.decode(rr::encode(ch));
      RefChain ref(ch);
      std::string h;
      auto take = [&] {
        Row out;
        int g = r.get(out);
        auto &gs = ref.groups(0);
        if (g == 0) {
          if (!gs.empty()) c.fail("after" + h + ": nothing although " + std::to_string(gs.size()) + " groups are pending");
          return false;
        }
        for (size_t i = 0; i < gs.size(); ++i) {
          Row w = gs[i].key;
          w.insert(w.end(), gs[i].acc.begin(), gs[i].acc.end());
          if (same(w, out)) {
            gs.erase(gs.begin() + i);
            return true;
          }
        }
        c.fail("after" + h + ": result " + ref::show(out) + " is not a pending group");
      };
      int n = mc::thorough() ? 10 : 7;
      for (int i = 0; i < n; ++i) {
        int k = c.choose(4);
        Row out;
        if (k < 3) {
          h += " put" + ref::show(rows[k]);
          ref.put(rows[k], out);
          if (r.put(rows[k], out)) c.fail("after" + h + ": output while putting");
        } else {
          h += " get";
          take();
        }
        c.steps();
        c.state(ref.hash());
      }
      while (take()) {}
    });
    mc::phase("many-groups", "every number of groups up to 400 and around the powers of two and ten to 70000 with 1..3 rows each, in sequence or round robin; integer, string and two-column keys; two batches", 2, [](mc::Ctx &c) {
      static const std::vector<int> big = mc::sizes(401, 65537, {70000});
      int i = c.choose(400 + (int)big.size());
      int n = i < 400 ? i + 1 : big[i - 400];
      int kind = c.choose(6);
      bool robin = kind & 1;
      kind >>= 1;
      if (n > 400 && !mc::thorough() && kind != 2) return;
      if (n > 8193 && (kind != 2 || !robin)) return;
      if (i < 400 && !mc::thorough() && i % 3) return;
      Chain ch{grouped(kind == 2 ? std::vector<int>{1, 0} : std::vector<int>{kind}, {{AggSpec::Sum, I64, 2}, kAll})};
      Real r;
      r.decode(rr::encode(ch));
      for (int batch = 0; batch < 2; ++batch) {
        std::map<int, std::pair<int64_t, int64_t>> want;
        Row out;
        auto put = [&](int g, int64_t v) {
          Row row{Val::i32(g * 31), Val::str("k" + std::to_string(g)), Val::i64(v)};
          if (r.put(row, out)) c.fail("output while putting");
          want[g].first += v;
          want[g].second++;
          c.steps();
        };
        if (robin) {
          for (int k = 0; k < 3; ++k) for (int g = 0; g < n; ++g) if (k <= g % 3) put(g, g * 5 + k);
        } else {
          for (int g = 0; g < n; ++g) for (int k = 0; k <= g % 3; ++k) put(g, g * 5 + k);
        }
        c.tick();
        while (r.get(out) == 1) {
          c.steps();
          size_t kw = kind == 2 ? 2 : 1;
          if (out.size() != kw + 2) c.fail("result has " + std::to_string(out.size()) + " columns");
          int g = kind == 0 ? (int)out[0].i / 31 : atoi(out[0].s.c_str() + (out[0].s.empty() ? 0 : 1));
          auto it = want.find(g);
          Row w;
          if (kind == 0) w = {Val::i32(g * 31)};
          else w = {Val::str("k" + std::to_string(g))};
          if (kind == 2) w.push_back(Val::i32(g * 31));
          if (it == want.end()) c.fail("unexpected or repeated group " + ref::show(out) + " among " + std::to_string(n));
          w.push_back(Val::i64(it->second.first));
          w.push_back(Val::i64(it->second.second));
          if (!same(out, w)) c.fail("group " + ref::show(out) + ", expected " + ref::show(w));
          want.erase(it);
        }
        if (!want.empty()) c.fail(std::to_string(want.size()) + " of " + std::to_string(n) + " groups are missing");
      }
      c.state(mc::mix(n, kind * 2 + robin));
    });
    mc::phase("partial-many", "n groups, t results taken, then m new groups and k rows of old ones (delivered or pending), again t taken, then drained: for n in 0..16 and up to 200, t in 0..n, m and k in 0..40", 3, [](mc::Ctx &c) {
      static const std::vector<int> ns = {0, 1, 2, 3, 5, 8, 11, 12, 13, 14, 16, 28, 29, 30, 59, 60, 97, 200};
      static const std::vector<int> ms = {0, 1, 2, 3, 13, 40};
      int n = c.pick(ns), ti = c.choose(7), m = c.pick(ms), k = c.pick(ms), kind = c.choose(2);
      int t = ti == 0 ? 0 : ti == 1 ? 1 : ti == 2 ? n / 2 : ti == 3 ? n - 1 : ti == 4 ? n : ti == 5 ? n + 1 : n / 3;
      if (t < 0) return;
      Chain ch{grouped({0}, {{AggSpec::Sum, I64, 1}, kAll})};
      Real r;
      r.decode(rr::encode(ch));
      std::string h = std::to_string(n) + " groups, " + std::to_string(t) + " taken, " + std::to_string(m) + " new and " + std::to_string(k) + " rows of old ones: ";
      c.note(h);
      std::map<std::string, std::pair<int64_t, int64_t>> want;
      Row out;
      auto name = [&](int g) { return kind ? Val::str("g" + std::to_string(g)) : Val::i64(g * 13); };
      auto put = [&](int g, int64_t v) {
        Row row{name(g), Val::i64(v)};
        if (r.put(row, out)) c.fail(h + "output while putting");
        auto &w = want[show(row[0])];
        w.first += v;
        ++w.second;
        c.steps();
      };
      auto take = [&] {
        int g = r.get(out);
        c.steps();
        if (g == 0) {
          if (!want.empty()) c.fail(h + "nothing although " + std::to_string(want.size()) + " groups are pending");
          return false;
        }
        if (g == 2 || out.size() != 3) c.fail(h + "odd result");
        auto it = want.find(show(out[0]));
        if (it == want.end()) c.fail(h + "group " + show(out[0]) + " is not pending");
        if (!same(out, {out[0], Val::i64(it->second.first), Val::i64(it->second.second)})) c.fail(h + "group " + ref::show(out) + ", expected sum " + std::to_string(it->second.first) + " and count " + std::to_string(it->second.second));
        want.erase(it);
        return true;
      };
      for (int g = 0; g < n; ++g) put(g, g + 1);
      for (int i = 0; i < t; ++i) take();
      for (int i = 0; i < m || i < k; ++i) {
        if (i < m) put(n + i, 1000 + i);
        if (i < k && n) put((i * 7) % n, 5);
      }
      for (int i = 0; i < t; ++i) take();
      for (int g = 0; g < 3; ++g) put(g, 100000);
      while (take()) {}
      c.state(mc::hashStr(h, kind));
    });
    mc::phase("many-rows", "one, two or 300 groups of together 70000 rows, counts and sums of each", 1, [](mc::Ctx &c) {
      int g = c.choose(3), kind = c.choose(2);
      int n = g == 0 ? 1 : g == 1 ? 2 : 300;
      Chain ch{grouped({0}, {{AggSpec::Sum, I64, 1}, kAll, {AggSpec::Count, I64, 1}, {AggSpec::Max, I64, 1}})};
      Driver d(c, ch, rr::encode(ch));
      for (int i = 0; i < 70000; ++i) {
        int k = (int)(((int64_t)i * i / 3) % n);
        d.put({kind ? Val::str("g" + std::to_string(k)) : Val::i32(k), i % 5 ? Val::i64(i) : Val()});
        if ((i & 1023) == 0) c.tick();
      }
      d.drain();
    });
    mc::phase("key-lists", "all key lists of up to 6 (thorough: 9) entries over 3 columns, repeats included, and cyclic lists of up to 300 entries (and around the powers of two to 4096) over 7 columns: rows equal in the columns of the list, different in one of them, different elsewhere", 2, [](mc::Ctx &c) {
      std::vector<int> keys;
      int w = 3;
      if (c.choose(2)) {
        w = 7;
        static const std::vector<int> big = mc::sizes(301, 4097);
        int n = c.choose(301 + (int)big.size());
        if (n > 300) n = big[n - 301];
        int step = 1 + c.choose(3);
        for (int i = 0; i < n; ++i) keys.push_back(i * step % 7);
      } else {
        int n = c.choose(mc::thorough() ? 10 : 7);
        for (int i = 0; i < n; ++i) keys.push_back(c.choose(3));
      }
      Chain ch{grouped(keys, {kAll, {AggSpec::Sum, I32, 1}})};
      Driver d(c, ch, rr::encode(ch));
      Row base;
      for (int i = 0; i < w; ++i) base.push_back(i % 3 == 2 ? Val::str("c" + std::to_string(i)) : Val::i32(i));
      for (int round = 0; round < 2; ++round)
        for (int i = -1; i < w; ++i) {
          Row r = base;
          if (i >= 0) r[i] = i % 3 == 1 && round ? Val() : i % 3 == 2 ? Val::str("other") : Val::i32(100);
          d.put(r);
        }
      d.drain();
    });
    mc::phase("key-columns", "every single key column of rows of up to 300 columns (and around the powers of two and ten to the 100000th), alone and after another one: rows that differ in that column only, or in any other only", 2, [](mc::Ctx &c) {
      static const std::vector<int> big = mc::sizes(300, 99999);
      int i = c.choose(300 + (int)big.size());
      int col = i < 300 ? i : big[i - 300];
      int w = i < 300 ? 301 : col < 16390 ? 16390 : 100001;
      bool two = c.choose(2);
      Chain ch{grouped(two ? std::vector<int>{0, col} : std::vector<int>{col}, {kAll, {AggSpec::Min, I32, col}})};
      Driver d(c, ch, rr::encode(ch));
      Row base;
      for (int k = 0; k < w; ++k) base.push_back(Val::i32(k));
      d.put(base);
      Row r = base;
      r[col] = Val::i32(-1);
      d.put(r);
      for (int k : {1, col & 0x7F, col & 0xFF, col & 0x7FFF, col & 0xFFFF, col ^ 1, 300}) {
        if (k == col || k == 0) continue;
        r = base;
        r[k] = Val::i32(-2);
        d.put(r);
      }
      d.drain();
    });
    mc::phase("wide-keys", "key lists over up to 40 columns: rows that differ in exactly one key column (each position, NULL or another value), all other columns equal", 2, [](mc::Ctx &c) {
      int w = 1 + c.choose(mc::thorough() ? 40 : 20);
      int kind = c.choose(3);
      Row base;
      std::vector<int> keys;
      for (int i = 0; i < w; ++i) {
        base.push_back(kind == 0 ? Val::i32(i % 3) : kind == 1 ? Val::str(std::string(i % 4, 's')) : Val());
        keys.push_back(i);
      }
      Chain ch{grouped(keys, {kAll})};
      Driver d(c, ch, rr::encode(ch));
      d.put(base);
      for (int i = 0; i < w; ++i) {
        Row r = base;
        r[i] = kind == 1 ? Val() : Val::str("~");
        d.put(r);
        d.put(base);
      }
      d.drain();
    });
  });
}
