// U02: hexadecimal and tuple helpers.
#include "exprcheck.h"
#include "expr/utils.h"
using namespace ec;

static const char *kUpper = "0123456789ABCDEF";
static int digit(unsigned char ch) {
  if (ch >= '0' && ch <= '9') return ch - '0';
  if (ch >= 'a' && ch <= 'f') return ch - 'a' + 10;
  if (ch >= 'A' && ch <= 'F') return ch - 'A' + 10;
  return -1;
}
// Buffers of exactly the needed size, so that a byte too many is caught.
static void roundTrip(mc::Ctx &c, const Bytes &b) {
  Code in(b);
  std::string want;
  for (unsigned char x : b) { want += kUpper[x >> 4]; want += kUpper[x & 15]; }
  std::unique_ptr<char[]> hex(new char[b.size() * 2]);
  dingodb::expr::BytesToHex(hex.get(), in.data(), b.size());
  if (std::string(hex.get(), b.size() * 2) != want) c.fail("bytes " + want + " become the text " + std::string(hex.get(), b.size() * 2));
  std::string s = dingodb::expr::HexOfBytes(in.data(), b.size());
  if (s != want) c.fail("bytes " + want + " become the string " + s);
  std::string lower = want, mixed = want;
  for (size_t i = 0; i < want.size(); ++i) {
    lower[i] = (char)tolower(want[i]);
    if (i & 1) mixed[i] = lower[i];
  }
  for (const std::string &t : {want, lower, mixed}) {
    std::unique_ptr<char[]> text(new char[t.size()]);
    memcpy(text.get(), t.data(), t.size());
    std::unique_ptr<unsigned char[]> out(new unsigned char[b.size()]);
    dingodb::expr::HexToBytes(out.get(), text.get(), t.size());
    if (memcmp(out.get(), b.data(), b.size())) c.fail("the text " + t + " becomes the bytes " + ::ref::hex(Bytes(out.get(), b.size())));
  }
  c.steps(3);
}
int main(int argc, char **argv) {
  return mc::mcMain(argc, argv, [] {
    bool th = mc::thorough();
    mc::phase("digits", "every character as a hexadecimal digit, every number -300..300 as a digit value", 1, [](mc::Ctx &c) {
      int ch = c.choose(256);
      int got = dingodb::expr::HexToNibble((char)ch);
      int want = digit((unsigned char)ch);
      c.steps();
      c.state(ch);
      c.outcome(got);
      if (want < 0 ? (got >= 0 && got <= 15) : got != want) c.fail("character " + std::to_string(ch) + " is digit " + std::to_string(got) + ", expected " + std::to_string(want));
      if (ch < 16 && dingodb::expr::NibbleToHex(ch) != kUpper[ch]) c.fail("digit value " + std::to_string(ch) + " becomes character " + std::to_string(dingodb::expr::NibbleToHex(ch)));
      for (int n = -300; n <= 300; ++n)
        if ((n < 0 || n > 15) && digit((unsigned char)dingodb::expr::NibbleToHex(n)) >= 0) c.fail("number " + std::to_string(n) + " becomes a hexadecimal digit");
    });
    mc::phase("bytes", "all byte strings of up to 3 bytes: to text (upper case, two digits per byte) and back from upper, lower and mixed case", 1, [=](mc::Ctx &c) {
      int a = c.choose(257);
      Bytes b;
      if (a < 256) {
        b.push_back((unsigned char)a);
        int x = c.choose(257);
        if (x < 256) {
          b.push_back((unsigned char)x);
          int y = c.choose(257);
          if (y) b.push_back((unsigned char)(y - 1));
        }
      }
      roundTrip(c, b);
      c.state(mc::hashBytes(b.data(), b.size()));
    });
    mc::phase("lengths", "byte strings of every length to 2100 (thorough: 9000) and around the powers of two to 2^17, in 3 patterns", 2, [=](mc::Ctx &c) {
      int m = th ? 9001 : 2101;
      static const std::vector<int> big = {4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 131073};
      int n = c.choose(m + (int)big.size()), p = c.choose(3);
      if (n >= m) n = big[n - m];
      Bytes b;
      for (int i = 0; i < n; ++i) b.push_back((unsigned char)(p == 0 ? i * 7 + 1 : p == 1 ? 0 : 255 - i));
      roundTrip(c, b);
      c.state(mc::mix(n, p));
    });
    mc::phase("hex-texts", "all texts of 4 hexadecimal digits of both cases, and of odd length 0..9 (the last digit is not used)", 2, [](mc::Ctx &c) {
      static const std::string d = "0123456789abcdefABCDEF";
      std::string t;
      int odd = c.choose(2);
      for (int i = 0; i < 4; ++i) t += c.pick(d);
      if (odd) t += 'e';
      std::unique_ptr<char[]> text(new char[t.size()]);
      memcpy(text.get(), t.data(), t.size());
      std::unique_ptr<unsigned char[]> out(new unsigned char[2]);
      dingodb::expr::HexToBytes(out.get(), text.get(), t.size());
      for (int i = 0; i < 2; ++i)
        if (out[i] != digit(t[2 * i]) * 16 + digit(t[2 * i + 1])) c.fail("the text " + t + " becomes the bytes " + ::ref::hex(Bytes(out.get(), 2)));
      c.steps();
      c.outcome(out[0] * 256 + out[1]);
    });
    static const std::vector<Val> vs = {Val(), Val::i32(1), Val::str("a string which is long enough"), Val::f64(2.5)};
    mc::phase("concat", "all pairs of tuples of up to 3 (thorough: 4) values from 4, and of lengths up to 40 and selected to 65537: every element in order, sources untouched", 2, [=](mc::Ctx &c) {
      int m = th ? 5 : 4;
      int kind = c.choose(2);
      Row a, b;
      if (kind == 0) {
        int n = c.choose(m);
        for (int i = 0; i < n; ++i) a.push_back(c.pick(vs));
        int k = c.choose(m);
        for (int i = 0; i < k; ++i) b.push_back(c.pick(vs));
      } else {
        static const std::vector<int> big = mc::sizes(41, 65537);
        int n = c.choose(41 + (int)big.size()), k = c.choose(41 + (int)big.size());
        if (n >= 41 && k >= 41 && n != k) return;
        if (n >= 41) n = big[n - 41];
        if (k >= 41) k = big[k - 41];
        for (int i = 0; i < n; ++i) a.push_back(Val::i64(i));
        for (int i = 0; i < k; ++i) b.push_back(Val::i32(i + 1000));
      }
      expr::Tuple ta = real::toTuple(a), tb = real::toTuple(b);
      std::unique_ptr<expr::Tuple> t(dingodb::expr::ConcatTuple(ta, tb));
      Row want = a;
      want.insert(want.end(), b.begin(), b.end());
      c.steps();
      c.state(hashRow(a, hashRow(b)));
      if (!same(real::fromTuple(*t, &want), want)) c.fail(show(a) + " and " + show(b) + " are joined to " + show(real::fromTuple(*t)));
      if (!same(real::fromTuple(ta, &a), a) || !same(real::fromTuple(tb, &b), b)) c.fail("joining " + show(a) + " and " + show(b) + " changed them");
    });
    mc::phase("map", "tuples of 1..5 different values x all index lists of up to 4 (thorough: 6) entries; and rotations of lists of up to 80 and around 256 and 65536 entries over 60, 300 and 70000 columns: exactly the selected elements in the order of the list, source untouched", 2, [=](mc::Ctx &c) {
      int w = 1 + c.choose(5);
      int kind = c.choose(2);
      Row a;
      std::vector<int> ix;
      if (kind == 0) {
        static const std::vector<Val> el = {Val::i32(10), Val::str("eleven, in a long enough string"), Val(), Val::i64(13), Val::b(true)};
        for (int i = 0; i < w; ++i) a.push_back(el[i]);
        int n = c.choose(th ? 7 : 5);
        for (int i = 0; i < n; ++i) ix.push_back(c.choose(w));
      } else {
        static const std::vector<int> big = mc::sizes(80, 65537);
        int cols = std::vector<int>{60, 300, 70000}[c.choose(3)];
        int n = c.choose(80 + (int)big.size()), r = c.choose(60);
        if (cols == 70000 && (n >= 80 || n % 13 || r % 11)) return;
        for (int i = 0; i < cols; ++i) a.push_back(Val::i64(i * 3));
        if (n >= 80) { n = big[n - 80]; if (r % 20) return; }
        for (int i = 0; i < n; ++i) ix.push_back((i * w + r * cols / 60) % cols);
      }
      std::unique_ptr<int[]> p(new int[ix.size()]);
      std::copy(ix.begin(), ix.end(), p.get());
      expr::Tuple ta = real::toTuple(a);
      std::unique_ptr<expr::Tuple> t(dingodb::expr::MapTuple(ta, p.get(), ix.size()));
      Row want;
      std::string il;
      for (int i : ix) { want.push_back(a[i]); il += " " + std::to_string(i); }
      c.steps();
      c.state(hashRow(want));
      if (!same(real::fromTuple(*t, &want), want)) c.fail(show(a) + " mapped by" + il + " is " + show(real::fromTuple(*t)));
      if (!same(real::fromTuple(ta, &a), a)) c.fail("mapping " + show(a) + " by" + il + " changed it");
    });
  });
}
