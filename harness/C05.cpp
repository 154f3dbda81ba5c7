// variant: asan
// libs: core
// C05: integer and string encodings.
#include <folly/Range.h>
#include <wdt/util/SerializationUtil.h>
#include <climits>
#include <cstring>
#include <memory>
#include "pbt.h"
using namespace facebook::wdt;
using folly::ByteRange;
using pbt::Case;

// ---- reference model of the documented format
static std::string refU(uint64_t v) {
  std::string s;
  for (int i = 0; i < 8; i++) {
    if (v < 128) break;
    s += (char)(0x80 | (v & 0x7f));
    v >>= 7;
  }
  s += (char)(v & 0xff);  // the ninth byte carries 8 bits
  return s;
}
static bool refDecode(const std::string& b, size_t pos, uint64_t& v, size_t& end) {
  v = 0;
  for (int i = 0; i < 9; i++) {
    if (pos + i >= b.size()) return false;
    unsigned char c = b[pos + i];
    if (i == 8) {
      v |= (uint64_t)c << 56;
      end = pos + 9;
      return true;
    }
    v |= (uint64_t)(c & 0x7f) << (7 * i);
    if (!(c & 0x80)) {
      end = pos + i + 1;
      return true;
    }
  }
  return false;
}
static uint64_t zz(int64_t v) { return v >= 0 ? (uint64_t)v * 2 : ~((uint64_t)v * 2) ; }
static int64_t unzz(uint64_t u) { return (u & 1) ? -(int64_t)(u >> 1) - 1 : (int64_t)(u >> 1); }
static std::string fixedLE(uint64_t v, int n) {
  std::string s;
  for (int i = 0; i < n; i++) s += (char)(v >> (8 * i));
  return s;
}
// heap block of exactly n bytes so that AddressSanitizer sees any byte beyond it
struct Buf {
  std::unique_ptr<char[]> p;
  size_t n;
  explicit Buf(size_t k) : p(new char[k]), n(k) { memset(p.get(), 0xAA, k); }
  explicit Buf(const std::string& s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), s.size()); }
  char* data() { return p.get(); }
};
struct Item {
  int kind;
  uint64_t u;
  std::string str, enc;
  std::string show() const {
    static const char* k[] = {"u64", "i64", "i64C", "i16", "i32", "i64fixed", "string"};
    return std::string(k[kind]) + " " + (kind == 6 ? pbt::show(str, 60) : kind == 1 ? std::to_string((int64_t)u) : std::to_string(u));
  }
};
static Item genItem(Case& c) {
  Item i;
  i.kind = (int)c.draw(6);
  i.u = c.u64();
  switch (i.kind) {
    case 0: i.enc = refU(i.u); break;
    case 1: i.u = (uint64_t)c.zig(i.u); i.enc = refU(zz((int64_t)i.u)); break;
    case 2: i.u &= INT64_MAX; i.enc = refU(i.u); break;
    case 3: i.u &= INT16_MAX; i.enc = fixedLE(i.u, 2); break;
    case 4: i.u &= INT32_MAX; i.enc = fixedLE(i.u, 4); break;
    case 5: i.u &= INT64_MAX; i.enc = fixedLE(i.u, 8); break;
    default: i.str = c.chance(1, 3) ? c.blob(c.logRange(0, 3000)) : c.bytes(0, 20); i.enc = refU(i.str.size()) + i.str; break;
  }
  return i;
}
static bool encode(const Item& i, char* d, int64_t sz, int64_t& pos) {
  switch (i.kind) {
    case 0: return encodeVarU64(d, sz, pos, i.u);
    case 1: return encodeVarI64(d, sz, pos, (int64_t)i.u);
    case 2: return encodeVarI64C(d, sz, pos, (int64_t)i.u);
    case 3: return encodeInt16FixedLength(d, sz, pos, (int16_t)i.u);
    case 4: return encodeInt32FixedLength(d, sz, pos, (int32_t)i.u);
    case 5: return encodeInt64FixedLength(d, sz, pos, (int64_t)i.u);
    default: return encodeString(d, sz, pos, i.str);
  }
}
// decodes with the matching range decoder; checks the value
static bool decodeItem(Case& c, const Item& i, ByteRange& br) {
  bool ok;
  switch (i.kind) {
    case 0: {
      uint64_t v = 7;
      ok = decodeUInt64(br, v);
      if (ok) PBT_EQ(c, v, i.u, "decoded " << i.show());
      return ok;
    }
    case 1: {
      int64_t v = 7;
      ok = decodeInt64(br, v);
      if (ok) PBT_EQ(c, v, (int64_t)i.u, "decoded " << i.show());
      return ok;
    }
    case 2: {
      int64_t v = 7;
      ok = decodeInt64C(br, v);
      if (ok) PBT_EQ(c, v, (int64_t)i.u, "decoded " << i.show());
      return ok;
    }
    case 3: {
      int16_t v = 7;
      ok = decodeInt16FixedLength(br, v);
      if (ok) PBT_EQ(c, v, (int16_t)i.u, "decoded " << i.show());
      return ok;
    }
    case 4: {
      int32_t v = 7;
      ok = decodeInt32FixedLength(br, v);
      if (ok) PBT_EQ(c, v, (int32_t)i.u, "decoded " << i.show());
      return ok;
    }
    case 5: {
      int64_t v = 7;
      ok = decodeInt64FixedLength(br, v);
      if (ok) PBT_EQ(c, v, (int64_t)i.u, "decoded " << i.show());
      return ok;
    }
    default: {
      std::string s = "x";
      ok = decodeString(br, s);
      if (ok) PBT_CHECK(c, s == i.str, "decoded " << i.show() << " as " << pbt::show(s, 60));
      return ok;
    }
  }
}
// sequences of values: round trip, wire format, every too-small buffer size, every truncation
static void sequence(Case& c) {
  size_t n = c.logRange(1, 8);
  std::vector<Item> v;
  std::string all;
  for (size_t i = 0; i < n; i++) {
    v.push_back(genItem(c));
    all += v.back().enc;
  }
  size_t slack = c.logRange(0, 20), lead = c.logRange(0, 10);
  c.note([&] {
    std::string s = "encode at offset " + std::to_string(lead) + " with " + std::to_string(slack) + " spare bytes:";
    for (auto& i : v) s += " " + i.show();
    return s;
  });
  bool big = false;
  for (auto& i : v) big |= i.enc.size() >= 5;
  if (n >= 2 && big) c.nontrivial();
  size_t size = lead + all.size() + slack;
  {
    Buf b(size);
    int64_t pos = lead;
    size_t at = lead;
    for (auto& i : v) {
      PBT_CHECK(c, encode(i, b.data(), size, pos), "encoding " << i.show() << " at " << at << " of " << size << " fails");
      PBT_EQ(c, pos, (int64_t)(at + i.enc.size()), "write position after " << i.show());
      PBT_CHECK(c, memcmp(b.data() + at, i.enc.data(), i.enc.size()) == 0, "wire form of " << i.show() << " is " << pbt::show(std::string(b.data() + at, i.enc.size()), 40) << " instead of " << pbt::show(i.enc, 40));
      at += i.enc.size();
    }
    for (size_t k = 0; k < lead; k++) PBT_CHECK(c, (unsigned char)b.data()[k] == 0xAA, "byte before the offset overwritten");
    for (size_t k = at; k < size; k++) PBT_CHECK(c, (unsigned char)b.data()[k] == 0xAA, "byte beyond the value overwritten");
    ByteRange br((const uint8_t*)b.data() + lead, (const uint8_t*)b.data() + size);
    const ByteRange obr = br;
    at = 0;
    for (auto& i : v) {
      PBT_CHECK(c, decodeItem(c, i, br), "decoding " << i.show() << " fails");
      at += i.enc.size();
      PBT_EQ(c, (size_t)(br.start() - obr.start()), at, "read position after " << i.show());
    }
    // string-building forms
    for (auto& i : v) {
      std::string s = "p";
      size_t k = 0;
      if (i.kind == 0) k = encodeVarU64(s, i.u);
      else if (i.kind == 1) k = encodeVarI64(s, (int64_t)i.u);
      else continue;
      PBT_CHECK(c, s == "p" + i.enc && k == i.enc.size(), "string form of " << i.show() << " is " << pbt::show(s) << " count " << k);
    }
  }
  // too small for the last value
  const Item& last = v.back();
  size_t before = all.size() - last.enc.size();
  size_t room = c.draw(last.enc.size() - 1);
  {
    Buf b(lead + before + room);
    int64_t pos = lead;
    for (size_t k = 0; k + 1 < v.size(); k++) PBT_CHECK(c, encode(v[k], b.data(), b.n, pos), "encoding " << v[k].show() << " fails");
    PBT_CHECK(c, !encode(last, b.data(), b.n, pos), "encoding " << last.show() << " into " << room << " bytes succeeds");
    PBT_CHECK(c, pos >= (int64_t)(lead + before) && pos <= (int64_t)b.n, "position " << pos << " after failure");
  }
  // truncated in the last value
  {
    std::string t = all.substr(0, before + room);
    Buf b(t);
    ByteRange br((const uint8_t*)b.data(), (const uint8_t*)b.data() + b.n);
    for (size_t k = 0; k + 1 < v.size(); k++) PBT_CHECK(c, decodeItem(c, v[k], br), "decoding " << v[k].show() << " fails");
    PBT_CHECK(c, !decodeItem(c, last, br), "decoding " << last.show() << " from its first " << room << " bytes succeeds");
    PBT_CHECK(c, br.start() >= (const uint8_t*)b.data() && br.start() <= br.end() && br.end() == (const uint8_t*)b.data() + b.n, "range after a failed decode is outside the input");
  }
}
// arbitrary bytes against the reference decoder, every decoder
static void decoders(Case& c) {
  std::string in = c.weighted({3, 2, 1}) == 0 ? c.bytes(0, 24) : std::string();
  if (in.empty() && c.flip()) {
    size_t k = c.range(0, 11);
    for (size_t i = 0; i < k; i++) in += (char)(0x80 | c.draw(127));
    in += c.bytes(0, 4);
  } else if (in.empty()) {
    in = refU(c.u64()) + c.bytes(0, 30);
  }
  size_t off = c.draw(std::min<size_t>(in.size(), 4));
  c.note([&] { return "decode " + pbt::show(in) + " at " + std::to_string(off); });
  Buf b(in);
  uint64_t u;
  size_t end = 0;
  bool rok = refDecode(in, off, u, end);
  if (rok && end - off >= 2) c.nontrivial();
  c.label(rok ? (end - off == 9 ? "nine byte value" : "decodable") : "truncated");
  const uint8_t* base = (const uint8_t*)b.data();
  auto fresh = [&] { return ByteRange(base + off, base + b.n); };
  auto inside = [&](const ByteRange& r, const char* w) {
    PBT_CHECK(c, r.end() == base + b.n && r.start() >= base + off && r.start() <= r.end(), w << ": range outside the input after the call");
  };
  {
    int64_t pos = off;
    uint64_t v = 0;
    bool ok = decodeVarU64(b.data(), b.n, pos, v);
    PBT_EQ(c, ok, rok, "decodeVarU64 result");
    if (ok) PBT_CHECK(c, v == u && pos == (int64_t)end, "decodeVarU64 gives " << v << " at " << pos << " instead of " << u << " at " << end);
    pos = -(int64_t)c.range(1, 5);
    PBT_CHECK(c, !decodeVarU64(b.data(), b.n, pos, v), "negative position accepted");
  }
  {
    int64_t pos = off, v = 0;
    bool ok = decodeVarI64(b.data(), b.n, pos, v);
    PBT_EQ(c, ok, rok, "decodeVarI64 result");
    if (ok) PBT_CHECK(c, v == unzz(u) && pos == (int64_t)end, "decodeVarI64 gives " << v << " at " << pos);
  }
  {
    ByteRange br = fresh();
    uint64_t v = 0;
    bool ok = decodeUInt64(br, v);
    PBT_EQ(c, ok, rok, "decodeUInt64 result");
    if (ok) PBT_CHECK(c, v == u && br.start() == base + end, "decodeUInt64 gives " << v);
    inside(br, "decodeUInt64");
  }
  {
    ByteRange br = fresh();
    int64_t v = 0;
    bool ok = decodeInt64(br, v);
    PBT_EQ(c, ok, rok, "decodeInt64 result");
    if (ok) PBT_CHECK(c, v == unzz(u) && br.start() == base + end, "decodeInt64 gives " << v);
    inside(br, "decodeInt64");
  }
  {
    ByteRange br = fresh();
    int32_t v = 0;
    bool ok = decodeInt32(br, v);
    bool want = rok && unzz(u) >= INT32_MIN && unzz(u) <= INT32_MAX;
    PBT_EQ(c, ok, want, "decodeInt32 of " << unzz(u));
    if (ok) PBT_CHECK(c, v == unzz(u) && br.start() == base + end, "decodeInt32 gives " << v);
    inside(br, "decodeInt32");
  }
  {
    ByteRange br = fresh();
    int64_t v = 0;
    bool ok = decodeInt64C(br, v);
    bool want = rok && u <= (uint64_t)INT64_MAX;
    PBT_EQ(c, ok, want, "decodeInt64C of " << u);
    if (ok) PBT_CHECK(c, (uint64_t)v == u && br.start() == base + end, "decodeInt64C gives " << v);
    inside(br, "decodeInt64C");
  }
  {
    ByteRange br = fresh();
    int32_t v = 0;
    bool ok = decodeInt32C(br, v);
    bool want = rok && u <= (uint64_t)INT32_MAX;
    PBT_EQ(c, ok, want, "decodeInt32C of " << u);
    if (ok) PBT_CHECK(c, (uint64_t)v == u && br.start() == base + end, "decodeInt32C gives " << v);
    inside(br, "decodeInt32C");
  }
  {
    ByteRange br = fresh();
    std::string s;
    bool ok = decodeString(br, s);
    bool want = rok && u <= in.size() - end;
    PBT_EQ(c, ok, want, "decodeString with length " << u << " and " << in.size() << " bytes");
    if (ok) PBT_CHECK(c, s == in.substr(end, u) && br.start() == base + end + u, "decodeString gives " << pbt::show(s));
    inside(br, "decodeString");
  }
  auto fixed = [&](auto zero, auto fn, const char* w) {
    typedef decltype(zero) T;
    ByteRange br = fresh();
    T v = 0;
    bool ok = fn(br, v);
    bool fits = in.size() - off >= sizeof(T);
    T ref = 0;
    if (fits) {
      uint64_t x = 0;
      for (size_t i = 0; i < sizeof(T); i++) x |= (uint64_t)(unsigned char)in[off + i] << (8 * i);
      ref = (T)x;
    }
    PBT_EQ(c, ok, fits && ref >= 0, w << " result for " << (int64_t)ref);
    if (ok) PBT_CHECK(c, v == ref && br.start() == base + off + sizeof(T), w << " gives " << (int64_t)v);
    inside(br, w);
  };
  fixed((int16_t)0, decodeInt16FixedLength, "decodeInt16FixedLength");
  fixed((int32_t)0, decodeInt32FixedLength, "decodeInt32FixedLength");
  fixed((int64_t)0, decodeInt64FixedLength, "decodeInt64FixedLength");
}
// encoders with any buffer size and offset
static void small(Case& c) {
  Item i = genItem(c);
  size_t size = c.logRange(0, 30);
  int64_t pos = c.range(i.kind <= 2 ? -2 : 0, (int64_t)size), at = pos;
  c.note([&] { return "encode " + i.show() + " at " + std::to_string(pos) + " of " + std::to_string(size); });
  Buf b(size);
  bool want = pos >= 0 && pos + (int64_t)i.enc.size() <= (int64_t)size;
  bool ok = encode(i, b.data(), size, pos);
  PBT_EQ(c, ok, want, "encoding " << i.show() << " (" << i.enc.size() << " bytes) at " << at << " of " << size);
  if (!ok) c.nontrivial();
  for (int64_t k = 0; k < at; k++) PBT_CHECK(c, (unsigned char)b.data()[k] == 0xAA, "byte before the offset overwritten");
  if (ok) PBT_EQ(c, pos, at + (int64_t)i.enc.size(), "position");
  else PBT_CHECK(c, pos <= (int64_t)size, "position beyond the buffer after failure");
}
int main(int argc, char** argv) {
  return pbt::main(argc, argv, "C05", {
      {"sequence", sequence, 300000, 4000000, 20, false, "at least two values, one taking five or more bytes"},
      {"decoders", decoders, 400000, 5000000, 20, false, "a decodable value of two or more bytes"},
      {"small", small, 200000, 2000000, 20, false, "the buffer is too small"},
  });
}
