// variant: asan
// libs: core
// C06: protocol messages decode to what was encoded.
#include "proto_msgs.h"

static void roundTrip(Case& c, int kind) {
  Msg in;
  Msg exp = genMsg(c, kind, in);
  size_t lead = c.logRange(0, 20), slack = c.logRange(0, 20);
  c.note([&] { return in.show() + " at offset " + std::to_string(lead) + " with " + std::to_string(slack) + " spare bytes"; });
  c.label(std::string("version ") + (in.version < 13 ? "<13" : in.version < 16 ? "13-15" : in.version < 21 ? "16-20" : in.version < 27 ? "21-26" : ">=27"));
  size_t limit = (size_t)std::min<int64_t>(maxEncoded(in), 1 << 22) + lead + slack;
  if (kind == CHECKPOINTS && in.cps.size() != 1) limit = 10 + in.cps.size() * 60 + lead + slack;
  HeapBuf b(limit);
  int64_t off = lead;
  PBT_CHECK(c, encodeMsg(in, b.data(), off, limit), "a valid " << in.show() << " does not fit in the documented maximum of " << limit - lead - slack << " bytes");
  PBT_CHECK(c, off >= (int64_t)lead && off <= (int64_t)(limit - slack), "encoded " << in.show() << " takes " << off - lead << " bytes, more than the documented maximum " << limit - lead - slack);
  size_t len = off - lead;
  for (size_t i = 0; i < lead; i++) PBT_CHECK(c, (unsigned char)b.data()[i] == 0xAA, "byte before the write offset changed");
  for (size_t i = off; i < limit; i++) PBT_CHECK(c, (unsigned char)b.data()[i] == 0xAA, "byte beyond the write offset changed");
  // decode from a block with arbitrary bytes after the message
  std::string tail = kind == CHUNKLIST ? "" : c.bytes(0, 12);
  HeapBuf d(std::string(b.data(), off) + tail);
  Msg got;
  got.kind = kind;
  got.version = in.version;
  int64_t roff = lead;
  bool ok = kind == CHUNKLIST ? decodeMsg(got, d.data(), roff, off) : decodeMsg(got, d.data(), roff, d.n);
  PBT_CHECK(c, ok, "decoding " << in.show() << " fails");
  PBT_CHECK(c, sameMsg(got, exp), "sent " << in.show() << " expected " << exp.show() << " received " << got.show());
  PBT_EQ(c, roff, off, "bytes consumed decoding " << in.show());
  // a buffer one byte (or more) too small: refused, nothing written beyond
  if (len && kind != CHUNKLIST) {
    size_t cut = c.flip() ? 1 : c.range(1, len);
    HeapBuf s(off - cut);
    int64_t o = lead;
    PBT_CHECK(c, !encodeMsg(in, s.data(), o, s.n), "encoding " << in.show() << " (" << len << " bytes) into " << len - cut << " bytes reports success");
  }
  if (len >= (kind == SIZE || kind == FOOTER ? 3 : kind == DONE ? 6 : 13)) c.nontrivial();
}
// old receivers encode "no partial block" as -1 with ten bytes
static void legacyCheckpoint(Case& c) {
  int v = (int)c.range(21, 26);
  size_t n = c.range(1, 4);
  std::vector<Checkpoint> exp;
  std::string w;
  auto put = [&](uint64_t x) {
    char t[20];
    int64_t o = 0;
    encodeVarU64(t, sizeof t, o, x);
    w.append(t, o);
  };
  put(n);
  bool neg = false;
  for (size_t i = 0; i < n; i++) {
    Checkpoint p(pos32(c));
    p.numBlocks = pos64(c);
    p.hasSeqId = true;
    put(p.port);
    put(p.numBlocks);
    if (c.chance(2, 3)) {
      neg = true;
      p.lastBlockSeqId = -1;
      put(0);
      w += std::string(9, '\xff') + "\x01";
      put(0);
    } else {
      p.lastBlockReceivedBytes = pos64(c);
      p.lastBlockSeqId = pos64(c);
      p.lastBlockOffset = pos64(c);
      put(p.lastBlockReceivedBytes);
      put(p.lastBlockSeqId);
      put(p.lastBlockOffset);
    }
    exp.push_back(p);
  }
  Msg e, g;
  e.kind = g.kind = CHECKPOINTS;
  e.version = g.version = v;
  e.cps = exp;
  c.note([&] { return "legacy bytes of " + e.show(); });
  HeapBuf b(w);
  int64_t off = 0;
  PBT_CHECK(c, decodeMsg(g, b.data(), off, b.n), "legacy checkpoints " << e.show() << " are refused");
  PBT_CHECK(c, sameMsg(e, g), "legacy " << e.show() << " read as " << g.show());
  PBT_EQ(c, off, (int64_t)w.size(), "bytes consumed decoding " << e.show());
  PBT_CHECK(c, !neg || !g.cps[0].hasPartialBlockInfo() || exp[0].lastBlockSeqId >= 0, "-1 read as a partial block");
  if (neg) c.nontrivial();
}
// received-chunks lists split over buffers
static void batches(Case& c) {
  std::vector<FileChunksInfo> list;
  size_t n = c.logRange(1, 30), maxName = c.pick<size_t>({8, 60, 300}), maxLen = 0;
  size_t many = c.pick<size_t>({0, 3, 30, 200});
  for (size_t i = 0; i < n; i++) {
    list.push_back(genChunks(c, maxName, c.chance(1, 6) ? many * 4 : many));
    maxLen = std::max<size_t>(maxLen, Protocol::maxEncodeLen(list.back()));
  }
  int64_t old = c.pick<int64_t>({4, 4, 0, 9});
  int64_t least = old + 32 + maxName;  // every name fits
  int64_t buf;
  int how = (int)c.draw(3);
  if (how == 0) buf = old + Protocol::maxEncodeLen(list[c.draw(n - 1)]) + c.range(-1, 1);
  else if (how == 1) buf = old + maxLen + c.logRange(0, 40);
  else if (how == 2) buf = old + c.logRange(40, 8 * maxLen + 100);
  else {
    int64_t t = old;
    size_t upto = c.range(1, n);
    for (size_t i = 0; i < upto; i++) t += Protocol::maxEncodeLen(list[i]);
    buf = t + c.range(-1, 1);
  }
  buf = std::max(buf, least);
  c.note([&] {
    std::ostringstream o;
    o << n << " entries, buffer " << buf << " offset " << old << ", entry lengths";
    for (auto& f : list) o << " " << Protocol::maxEncodeLen(f);
    return o.str();
  });
  std::vector<FileChunksInfo> got;
  int64_t at = 0;
  size_t rounds = 0, partial = 0;
  while (at < (int64_t)n) {
    HeapBuf b(buf);
    int64_t off = old;
    int64_t k = Protocol::encodeFileChunksInfoList(b.data(), off, buf, at, list);
    PBT_CHECK(c, k > 0, "no entry is encoded from index " << at << " in a buffer of " << buf << " (offset " << old << ", entry needs at most " << Protocol::maxEncodeLen(list[at]) << "): the transfer of the list never ends");
    PBT_CHECK(c, at + k <= (int64_t)n && off <= buf && off >= old, "encoded " << k << " entries from " << at << " of " << n << ", offset " << off << " of " << buf);
    HeapBuf d(std::string(b.data() + old, off - old));
    int64_t ro = 0;
    size_t before = got.size();
    PBT_CHECK(c, Protocol::decodeFileChunksInfoList(d.data(), ro, d.n, got), "a batch is refused");
    PBT_EQ(c, ro, (int64_t)d.n, "bytes consumed");
    PBT_EQ(c, (int64_t)(got.size() - before), k, "entries in the batch from index " << at);
    at += k;
    rounds++;
  }
  PBT_EQ(c, got.size(), n, "entries received");
  for (size_t i = 0; i < n; i++) {
    auto &x = list[i], &y = got[i];
    PBT_CHECK(c, x.getFileName() == y.getFileName() && x.getSeqId() == y.getSeqId() && x.getFileSize() == y.getFileSize(), "entry " << i << " has a different name, sequence id or size");
    if (old + Protocol::maxEncodeLen(x) <= buf) {
      PBT_CHECK(c, x == y, "entry " << i << " has different chunks");
    } else {
      // cannot fit: may carry fewer chunks (never others)
      partial++;
      size_t p = 0;
      for (auto& ch : y.getChunks()) {
        while (p < x.getChunks().size() && !(x.getChunks()[p] == ch)) p++;
        PBT_CHECK(c, p < x.getChunks().size(), "entry " << i << " has a chunk that was not received");
        p++;
      }
    }
  }
  if (rounds >= 2) c.nontrivial();
  if (partial) c.label("entry larger than the buffer");
}
static void negotiate(Case& c) {
  int a = (int)c.range(0, 60), b = (int)c.range(10, 60);
  c.note([&] { return "negotiate " + std::to_string(a) + " at " + std::to_string(b); });
  int r = Protocol::negotiateProtocol(a, b);
  PBT_EQ(c, r, a < 10 ? 0 : std::min(a, b), "peer " << a << " own " << b);
  PBT_CHECK(c, r == 0 || Protocol::negotiateProtocol(r, b) == r, "not idempotent");
  if (a >= 10) c.nontrivial();
}
int main(int argc, char** argv) {
  std::vector<pbt::Sub> subs;
  for (int k = 0; k < NKINDS; k++) {
    pbt::Sub s;
    s.name = std::string("roundtrip-") + kindName(k);
    for (auto& ch : s.name) if (ch == ' ') ch = '-';
    s.fn = [k](Case& c) { roundTrip(c, k); };
    s.quick = k == HEADER || k == CHECKPOINTS || k == SETTINGS ? 60000 : 30000;
    s.thorough = s.quick * 30;
    s.rule = "encoded message longer than the trivial form (at least 13 bytes; 6 for done, 3 for size and footer)";
    subs.push_back(s);
  }
  pbt::Sub l{"legacy-checkpoint", legacyCheckpoint, 20000, 500000};
  l.rule = "at least one checkpoint carries the old ten-byte encoding of -1";
  subs.push_back(l);
  pbt::Sub b{"batches", batches, 25000, 800000};
  b.rule = "the list needs at least two buffers";
  subs.push_back(b);
  pbt::Sub ng{"negotiate", negotiate, 3000, 20000};
  ng.rule = "peer version is supported";
  subs.push_back(ng);
  return pbt::main(argc, argv, "C06", subs);
}
