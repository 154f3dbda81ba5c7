// variant: asan
// libs: core
// C07: decoders on malformed bytes.
#include "proto_msgs.h"

static void wellFormed(Case& c, const Msg& g, const std::string& raw, int64_t from, int64_t to, int64_t max) {
  PBT_CHECK(c, to >= from && to <= max, "read position " << to << " outside " << from << ".." << max);
  int64_t used = to - from;
  switch (g.kind) {
    case HEADER:
      PBT_CHECK(c, (int64_t)g.block.fileName.size() < used, "name of " << g.block.fileName.size() << " bytes from " << used << " bytes");
      PBT_CHECK(c, raw.find(g.block.fileName) != std::string::npos, "name does not occur in the input");
      PBT_CHECK(c, (unsigned)g.block.allocationStatus <= 7, "allocation status " << (int)g.block.allocationStatus);
      break;
    case SETTINGS:
      PBT_CHECK(c, (int64_t)g.settings.transferId.size() < used, "id of " << g.settings.transferId.size() << " bytes from " << used);
      PBT_CHECK(c, raw.find(g.settings.transferId) != std::string::npos, "id does not occur in the input");
      break;
    case ENCRYPTION:
      PBT_CHECK(c, (int64_t)g.iv.size() < used, "iv of " << g.iv.size() << " bytes from " << used);
      break;
    case CHECKPOINTS: {
      int64_t per = g.version < 16 ? 2 : g.version < 21 ? 3 : 5;
      PBT_CHECK(c, (int64_t)g.cps.size() * per < used || used == 0 || g.cps.empty(), g.cps.size() << " checkpoints from " << used << " bytes");
      break;
    }
    case CHUNKLIST: {
      int64_t need = 0;
      for (auto& f : g.chunks) need += 4 + f.getFileName().size() + 2 * f.getChunks().size();
      PBT_CHECK(c, need <= used, "list that needs " << need << " bytes from " << used << " bytes");
      break;
    }
    case KABORT: PBT_EQ(c, used, (int64_t)Protocol::kAbortLength, "abort length"); break;
    default: break;
  }
}
// decode arbitrary bytes; a success must survive re-encoding of what it carries
static void offer(Case& c, int kind, int version, const std::string& raw, int64_t from, int64_t max, Msg& g, bool& ok, int64_t& to) {
  g.kind = kind;
  g.version = version;
  HeapBuf b(raw.substr(0, max));  // nothing beyond the limit is readable
  to = from;
  ok = decodeMsg(g, b.data(), to, max);
  PBT_CHECK(c, to >= from && to <= max, "read position " << to << " outside " << from << ".." << max << " after " << (ok ? "success" : "failure"));
  if (ok) wellFormed(c, g, raw, from, to, max);
  // the answer only depends on the bytes
  Msg h;
  h.kind = kind;
  h.version = version;
  HeapBuf b2(raw.substr(0, max));
  int64_t t2 = from;
  bool ok2 = decodeMsg(h, b2.data(), t2, max);
  PBT_CHECK(c, ok == ok2 && (!ok || (t2 == to && sameMsg(g, h))), "decoding the same bytes twice differs: " << g.show() << " and " << h.show());
}
static std::string hostileInt(Case& c) {
  switch (c.draw(5)) {
    case 0: return std::string(1, (char)c.draw(255));
    case 1: return std::string(9, '\xff');
    case 2: return std::string(8, '\x80') + (char)c.draw(255);
    case 3: return std::string(c.range(1, 9), '\xff') + (char)c.draw(127);
    case 4: {
      char t[20];
      int64_t o = 0;
      encodeVarU64(t, sizeof t, o, c.u64());
      return std::string(t, o);
    }
    default: return std::string("\xff\xff\xff\xff\x07", 5);
  }
}
static void arbitrary(Case& c) {
  int kind = (int)c.draw(NKINDS - 1);
  int version = (int)c.range(0, 40);
  std::string raw;
  size_t parts = c.logRange(0, 12);
  for (size_t i = 0; i < parts; i++) raw += c.chance(1, 3) ? c.bytes(0, 10) : hostileInt(c);
  int64_t max = c.chance(1, 4) ? c.draw(raw.size()) : raw.size();
  int64_t from = c.chance(1, 4) ? c.draw(max) : 0;
  c.note([&] { return std::string(kindName(kind)) + " v" + std::to_string(version) + " offset " + std::to_string(from) + " limit " + std::to_string(max) + " bytes " + pbt::show(raw, 160); });
  Msg g;
  bool ok;
  int64_t to;
  offer(c, kind, version, raw, from, max, g, ok, to);
  c.label(std::string(kindName(kind)) + (ok ? " accepted" : " rejected"));
  if (max - from >= 4) c.nontrivial();
}
static void mutated(Case& c) {
  int kind = (int)c.draw(NKINDS - 1);
  Msg in;
  genMsg(c, kind, in);
  HeapBuf e(200000);
  int64_t off = 0;
  if (!encodeMsg(in, e.data(), off, e.n)) c.discard();
  std::string raw(e.data(), off);
  std::string what;
  size_t n = c.range(1, 3);
  for (size_t i = 0; i < n && !raw.empty(); i++) {
    size_t p = c.draw(raw.size() - 1);
    switch (c.draw(5)) {
      case 0: raw[p] ^= (char)(1 << c.draw(7)); what += " flip@" + std::to_string(p); break;
      case 1: raw[p] = (char)c.draw(255); what += " set@" + std::to_string(p); break;
      case 2: raw.insert(p, hostileInt(c)); what += " insert@" + std::to_string(p); break;
      case 3: raw.erase(p, c.range(1, 9)); what += " erase@" + std::to_string(p); break;
      case 4: raw.replace(p, 1, hostileInt(c)); what += " int@" + std::to_string(p); break;
      default: raw += raw.substr(0, p); what += " repeat"; break;
    }
  }
  int version = c.chance(1, 3) ? (int)c.range(0, 40) : in.version;
  c.note([&] { return in.show() + " mutated" + what + " decoded at v" + std::to_string(version); });
  Msg g;
  bool ok;
  int64_t to;
  offer(c, kind, version, raw, 0, raw.size(), g, ok, to);
  c.label(std::string(kindName(kind)) + (ok ? " accepted" : " rejected"));
  if (raw.size() >= 4) c.nontrivial();
}
// every truncation of a valid message is refused
static void truncated(Case& c) {
  int kind = (int)c.draw(NKINDS - 1);
  Msg in;
  Msg exp = genMsg(c, kind, in);
  HeapBuf e(300000);
  int64_t off = 0;
  if (!encodeMsg(in, e.data(), off, e.n)) c.discard();
  std::string raw(e.data(), off);
  c.note([&] { return "every truncation of " + in.show(); });
  std::vector<size_t> cuts;
  if (raw.size() <= 80) {
    for (size_t i = 0; i < raw.size(); i++) cuts.push_back(i);
  } else {
    for (size_t i = 0; i < 30; i++) cuts.push_back(i), cuts.push_back(raw.size() - 1 - i);
    for (size_t i = 0; i < 10; i++) cuts.push_back(c.draw(raw.size() - 1));
  }
  for (size_t k : cuts) {
    Msg g;
    bool ok;
    int64_t to;
    offer(c, kind, in.version, raw, 0, k, g, ok, to);
    if (!ok) continue;
    if (kind == CHUNKLIST) {
      // a list ends where its bytes end: a cut between entries is the shorter list
      size_t n = g.chunks.size();
      PBT_CHECK(c, n < exp.chunks.size() || exp.chunks.empty(), "a list cut at byte " << k << " of " << raw.size() << " still has " << n << " entries");
      for (size_t i = 0; i < n; i++) PBT_CHECK(c, g.chunks[i] == exp.chunks[i], "a list cut at byte " << k << " has a different entry " << i);
      PBT_EQ(c, to, (int64_t)k, "bytes consumed");
      continue;
    }
    c.fail("the first " + std::to_string(k) + " of " + std::to_string(raw.size()) + " bytes of " + in.show() + " are accepted as " + g.show());
  }
  if (cuts.size() >= 5) c.nontrivial();
}
int main(int argc, char** argv) {
  pbt::Sub a{"arbitrary", arbitrary, 400000, 12000000};
  a.rule = "at least four bytes are offered";
  pbt::Sub m{"mutated", mutated, 200000, 6000000};
  m.rule = "at least four bytes are offered";
  pbt::Sub t{"truncated", truncated, 60000, 2000000};
  t.rule = "at least five truncations of the message are tried";
  return pbt::main(argc, argv, "C07", {a, m, t});
}
