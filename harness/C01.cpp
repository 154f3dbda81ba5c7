// variant: asan
// libs: bench
// C01: a byte pair is a faithful value.
#include <wdt/bench/Bigram.h>
#include <cstring>
#include <sstream>
#include "common_bigram.h"
#include "pbt.h"
using pbt::Case;
static unsigned char byteGen(Case& c) {
  return (unsigned char)c.draw(255, [](pbt::Rng& r) -> uint64_t {
    static const unsigned char sp[] = {0, 1, 7, 8, '"', '\\', '\'', ' ', '0', '7', '8', '9', 0x1f, 0x7e, 0x7f, 0x80, 0x81, 0xff, 0xfe, '\n', '{', '}'};
    if (r.below(3) == 0) return sp[r.below(sizeof sp)];
    return r.below(256);
  });
}
static bool odd(unsigned char b) { return b >= 0x7f || b < 32 || b == '"' || b == '\\'; }
struct P {
  unsigned char a, b;
};
static P pairGen(Case& c) {
  P p;
  p.a = byteGen(c);
  p.b = byteGen(c);
  return p;
}
static Bigram mk(P p) { return Bigram((char)p.a, (char)p.b); }
static std::string sh(P p) { return pbt::show(std::string{(char)p.a, (char)p.b}); }

// value: access, construction, copies
static void basic(Case& c) {
  P p = pairGen(c);
  if (odd(p.a) || odd(p.b)) c.nontrivial();
  c.note([&] { return "pair " + sh(p); });
  Bigram b = mk(p);
  PBT_CHECK(c, (unsigned char)b[0] == p.a && (unsigned char)b[1] == p.b, "index access of " << sh(p));
  char lit[3] = {(char)p.a, (char)p.b, 0};
  const char(&ref)[3] = lit;
  Bigram l(ref);
  PBT_CHECK(c, l == b && !(l != b), "literal construction of " << sh(p));
  Bigram d;
  PBT_CHECK(c, d[0] == 0 && d[1] == 0, "default construction");
  d = b;
  Bigram e(b);
  PBT_CHECK(c, d == b && e == b && std::hash<Bigram>()(d) == std::hash<Bigram>()(b), "copies of " << sh(p));
  // printable form
  std::string s = b.toPrintableString();
  for (unsigned char ch : s) PBT_CHECK(c, ch >= 32 && ch < 127, "printable form " << pbt::show(s) << " of " << sh(p) << " is not printable");
  auto dec = decodePair(s);
  PBT_CHECK(c, dec.size() == 1 && dec[0].first == p.a && dec[0].second == p.b,
            "printable form " << pbt::show(s) << " of " << sh(p) << " has " << dec.size() << " readings" << (dec.size() ? ", first is " + sh(P{dec[0].first, dec[0].second}) : ""));
  std::string app = "abc";
  b.toPrintableString(app);
  PBT_EQ(c, app, "abc" + s, "appending printable form");
  std::ostringstream os;
  os << b;
  PBT_EQ(c, os.str(), s, "operator<<");
  unsigned char x;
  PBT_CHECK(c, decodeOne(Bigram::toPrintableString((char)p.a), x) && x == p.a, "single character form " << Bigram::toPrintableString((char)p.a));
  std::string bin = "z";
  b.toBinary(bin);
  PBT_CHECK(c, bin.size() == 3 && bin[0] == 'z' && (unsigned char)bin[1] == p.a && (unsigned char)bin[2] == p.b, "toBinary of " << sh(p));
}
// order, equality over triples
static void order(Case& c) {
  P p[3];
  p[0] = pairGen(c);
  for (int i = 1; i < 3; i++) {
    switch (c.draw(3)) {
      case 0: p[i] = pairGen(c); break;
      case 1: p[i] = P{p[i - 1].a, byteGen(c)}; break;
      case 2: p[i] = P{byteGen(c), p[i - 1].b}; break;
      default: p[i] = p[i - 1]; break;
    }
  }
  c.note([&] { return sh(p[0]) + " " + sh(p[1]) + " " + sh(p[2]); });
  bool anyHigh = false;
  for (auto& q : p) anyHigh |= q.a >= 0x80 || q.b >= 0x80;
  if (anyHigh) c.nontrivial();
  for (int i = 0; i < 3; i++) {
    for (int j = 0; j < 3; j++) {
      Bigram x = mk(p[i]), y = mk(p[j]);
      bool same = p[i].a == p[j].a && p[i].b == p[j].b;
      PBT_CHECK(c, (x == y) == same, sh(p[i]) << " == " << sh(p[j]) << " gives " << (x == y));
      PBT_CHECK(c, (x != y) == !same, sh(p[i]) << " != " << sh(p[j]) << " gives " << (x != y));
      int n = (x < y) + (y < x) + same;
      PBT_CHECK(c, n == 1, "order of " << sh(p[i]) << " and " << sh(p[j]) << ": < is " << (x < y) << ", > is " << (y < x) << ", equal is " << same);
      if (same) PBT_CHECK(c, std::hash<Bigram>()(x) == std::hash<Bigram>()(y), "hash of equal pairs " << sh(p[i]));
      for (int k = 0; k < 3; k++) {
        Bigram z = mk(p[k]);
        PBT_CHECK(c, !(x < y && y < z) || x < z, "transitivity of " << sh(p[i]) << " < " << sh(p[j]) << " < " << sh(p[k]));
      }
      if (p[i].a == p[j].a) {
        // the first byte decides, then the second
        Bigram x2((char)p[i].b, 0), y2((char)p[j].b, 0);
        PBT_CHECK(c, (x < y) == (x2 < y2), "second byte decides between " << sh(p[i]) << " and " << sh(p[j]));
      } else {
        Bigram x1((char)p[i].a, 0), y1((char)p[j].a, 0);
        PBT_CHECK(c, (x < y) == (x1 < y1), "first byte decides between " << sh(p[i]) << " and " << sh(p[j]));
      }
    }
  }
}
// binary streams
static void stream(Case& c) {
  size_t n = c.logRange(0, 40);
  std::vector<P> v;
  for (size_t i = 0; i < n; i++) v.push_back(pairGen(c));
  size_t cut = c.draw(n * 2);
  std::ostringstream os;
  for (auto& p : v) mk(p).binarySerialize(os);
  std::string bytes = os.str();
  PBT_EQ(c, bytes.size(), 2 * n, "serialized size");
  for (size_t i = 0; i < n; i++) PBT_CHECK(c, (unsigned char)bytes[2 * i] == v[i].a && (unsigned char)bytes[2 * i + 1] == v[i].b, "bytes of record " << i << " " << sh(v[i]));
  bytes.resize(2 * n - cut);
  c.note([&] { return std::to_string(n) + " pairs, cut to " + pbt::show(bytes); });
  if (n > 1 && bytes.size() % 2) c.nontrivial();
  c.label(bytes.size() % 2 ? "odd length" : "even length");
  std::istringstream is(bytes);
  size_t got = 0;
  while (true) {
    Bigram b;
    bool ok = b.binaryDeserialize(is);
    bool expect = bytes.size() - 2 * got >= 2;
    PBT_CHECK(c, ok == expect, "record " << got << " of " << bytes.size() << " bytes: read returned " << ok);
    if (!ok) break;
    PBT_CHECK(c, (unsigned char)b[0] == v[got].a && (unsigned char)b[1] == v[got].b, "record " << got << " read back as " << b);
    got++;
  }
  PBT_EQ(c, got, bytes.size() / 2, "records read");
}
// every pair of the 65,536, in slices of 256 per case
static void all(Case& c) {
  unsigned a = (unsigned)(c.range(0, 255));
  a = (a + c.index()) & 255;
  c.note([&] { return "all pairs with first byte " + std::to_string(a); });
  c.nontrivial();
  for (unsigned b = 0; b < 256; b++) {
    P p{(unsigned char)a, (unsigned char)b};
    std::string s = mk(p).toPrintableString();
    auto dec = decodePair(s);
    PBT_CHECK(c, dec.size() == 1 && dec[0].first == a && dec[0].second == b, "printable form " << pbt::show(s) << " of " << sh(p) << " does not determine the pair");
    std::ostringstream os;
    mk(p).binarySerialize(os);
    std::istringstream is(os.str());
    Bigram r;
    PBT_CHECK(c, r.binaryDeserialize(is) && r == mk(p), "binary round trip of " << sh(p));
  }
}
int main(int argc, char** argv) {
  return pbt::main(argc, argv, "C01", {
      {"value", basic, 400000, 4000000, 20, false, "a byte outside plain printable ASCII"},
      {"order", order, 300000, 3000000, 20, false, "a byte >= 0x80 among three pairs"},
      {"stream", stream, 100000, 1000000, 20, false, "more than one pair and a stream ending mid-record"},
      {"slice", all, 2000, 20000, 20, false, "a full slice of 256 pairs"},
  });
}
