// Generators of protocol messages with an independent idea of which fields each
// version carries.  Shared by C06 and C07.
#pragma once
#include <wdt/Protocol.h>
#include <wdt/util/SerializationUtil.h>
#include <climits>
#include <cstring>
#include <functional>
#include <memory>
#include "pbt.h"
using namespace facebook::wdt;
using pbt::Case;

struct HeapBuf {  // exactly n bytes, so that AddressSanitizer sees any byte beyond
  std::unique_ptr<char[]> p;
  size_t n;
  explicit HeapBuf(size_t k) : p(new char[k]), n(k) { memset(p.get(), 0xAA, k); }
  explicit HeapBuf(const std::string& s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), s.size()); }
  char* data() { return p.get(); }
};
enum Kind { HEADER, SETTINGS, DONE, SIZE, CHECKPOINTS, KABORT, CHUNKSCMD, FOOTER, ENCRYPTION, CHUNKLIST, NKINDS };
inline const char* kindName(int k) {
  static const char* n[] = {"header", "settings", "done", "size", "checkpoints", "abort", "chunks command", "footer", "encryption settings", "received-chunks list"};
  return n[k];
}
// everything a decoder may fill in
struct Msg {
  int kind{0};
  int version{0};
  BlockDetails block;
  Settings settings;
  int64_t a{0}, b{0};
  int32_t i32{0};
  ErrorCode err{OK};
  std::vector<Checkpoint> cps;
  EncryptionType enc{ENC_NONE};
  std::string iv;
  std::vector<FileChunksInfo> chunks;

  std::string show() const {
    std::ostringstream o;
    o << kindName(kind) << " v" << version << " {";
    switch (kind) {
      case HEADER:
        o << pbt::show(block.fileName, 60) << "(" << block.fileName.size() << ") seq " << block.seqId << " dataSize " << block.dataSize << " offset " << block.offset << " fileSize " << block.fileSize << " alloc "
          << (int)block.allocationStatus << " prev " << block.prevSeqId;
        break;
      case SETTINGS:
        o << "version " << i32 << " rt " << settings.readTimeoutMillis << " wt " << settings.writeTimeoutMillis << " id " << pbt::show(settings.transferId, 60) << " checksum " << settings.enableChecksum << " chunks "
          << settings.sendFileChunks << " blockModeDisabled " << settings.blockModeDisabled << " heartbeat " << settings.enableHeartBeat;
        break;
      case DONE: case CHUNKSCMD: o << a << "," << b; break;
      case SIZE: o << a; break;
      case CHECKPOINTS:
        for (auto& p : cps) o << "(port " << p.port << " n " << p.numBlocks << " seq " << p.lastBlockSeqId << (p.hasSeqId ? "" : "-") << " off " << p.lastBlockOffset << " recv " << p.lastBlockReceivedBytes << ")";
        break;
      case KABORT: o << "version " << i32 << " err " << (int)err << " checkpoint " << a; break;
      case FOOTER: o << i32; break;
      case ENCRYPTION: o << (int)enc << " iv " << pbt::show(iv, 40) << " interval " << i32; break;
      case CHUNKLIST:
        for (auto& f : chunks) {
          o << "(" << f.getSeqId() << " " << pbt::show(f.getFileName(), 20) << " " << f.getFileSize() << ":";
          size_t k = 0;
          for (auto& i : f.getChunks()) {
            o << " " << i.start_ << "-" << i.end_;
            if (++k > 6) { o << " ... " << f.getChunks().size(); break; }
          }
          o << ")";
        }
        break;
    }
    o << "}";
    return o.str();
  }
};
inline bool sameCp(const Checkpoint& a, const Checkpoint& b) {
  return a.port == b.port && a.numBlocks == b.numBlocks && a.lastBlockSeqId == b.lastBlockSeqId && a.lastBlockOffset == b.lastBlockOffset && a.lastBlockReceivedBytes == b.lastBlockReceivedBytes && a.hasSeqId == b.hasSeqId;
}
inline bool sameMsg(const Msg& x, const Msg& y) {
  switch (x.kind) {
    case HEADER:
      return x.block.fileName == y.block.fileName && x.block.seqId == y.block.seqId && x.block.fileSize == y.block.fileSize && x.block.offset == y.block.offset && x.block.dataSize == y.block.dataSize &&
             x.block.allocationStatus == y.block.allocationStatus && x.block.prevSeqId == y.block.prevSeqId;
    case SETTINGS:
      return x.i32 == y.i32 && x.settings.readTimeoutMillis == y.settings.readTimeoutMillis && x.settings.writeTimeoutMillis == y.settings.writeTimeoutMillis && x.settings.transferId == y.settings.transferId &&
             x.settings.enableChecksum == y.settings.enableChecksum && x.settings.sendFileChunks == y.settings.sendFileChunks && x.settings.blockModeDisabled == y.settings.blockModeDisabled &&
             x.settings.enableHeartBeat == y.settings.enableHeartBeat;
    case DONE: case CHUNKSCMD: return x.a == y.a && x.b == y.b;
    case SIZE: return x.a == y.a;
    case CHECKPOINTS:
      if (x.cps.size() != y.cps.size()) return false;
      for (size_t i = 0; i < x.cps.size(); i++)
        if (!sameCp(x.cps[i], y.cps[i])) return false;
      return true;
    case KABORT: return x.i32 == y.i32 && x.err == y.err && x.a == y.a;
    case FOOTER: return x.i32 == y.i32;
    case ENCRYPTION: return x.enc == y.enc && x.iv == y.iv && x.i32 == y.i32;
    default:
      if (x.chunks.size() != y.chunks.size()) return false;
      for (size_t i = 0; i < x.chunks.size(); i++)
        if (!(x.chunks[i] == y.chunks[i])) return false;
      return true;
  }
}
inline bool encodeMsg(const Msg& m, char* d, int64_t& off, int64_t max) {
  switch (m.kind) {
    case HEADER: return Protocol::encodeHeader(m.version, d, off, max, m.block);
    case SETTINGS: return Protocol::encodeSettings(m.version, d, off, max, m.settings);
    case DONE: return Protocol::encodeDone(m.version, d, off, max, m.a, m.b);
    case SIZE: return Protocol::encodeSize(d, off, max, m.a);
    case CHECKPOINTS: return Protocol::encodeCheckpoints(m.version, d, off, max, m.cps);
    case KABORT: return Protocol::encodeAbort(d, off, max, m.i32, m.err, m.a);
    case CHUNKSCMD: return Protocol::encodeChunksCmd(d, off, max, m.a, m.b);
    case FOOTER: return Protocol::encodeFooter(d, off, max, m.i32);
    case ENCRYPTION: return Protocol::encodeEncryptionSettings(d, off, max, m.enc, m.iv, m.i32);
    default:
      for (auto& f : m.chunks)
        if (!Protocol::encodeFileChunksInfo(d, off, max, f)) return false;
      return true;
  }
}
inline bool decodeMsg(Msg& m, char* s, int64_t& off, int64_t max) {
  switch (m.kind) {
    case HEADER: return Protocol::decodeHeader(m.version, s, off, max, m.block);
    case SETTINGS: {
      int v = 0;
      if (!Protocol::decodeVersion(s, off, max, v)) return false;
      m.i32 = v;
      return Protocol::decodeSettings(m.version, s, off, max, m.settings);
    }
    case DONE: return Protocol::decodeDone(m.version, s, off, max, m.a, m.b);
    case SIZE: return Protocol::decodeSize(s, off, max, m.a);
    case CHECKPOINTS: return Protocol::decodeCheckpoints(m.version, s, off, max, m.cps);
    case KABORT: return Protocol::decodeAbort(s, off, max, m.i32, m.err, m.a);
    case CHUNKSCMD: return Protocol::decodeChunksCmd(s, off, max, m.a, m.b);
    case FOOTER: return Protocol::decodeFooter(s, off, max, m.i32);
    case ENCRYPTION: return Protocol::decodeEncryptionSettings(s, off, max, m.enc, m.iv, m.i32);
    default: return Protocol::decodeFileChunksInfoList(s, off, max, m.chunks);
  }
}
// documented limits
inline int64_t maxEncoded(const Msg& m) {
  switch (m.kind) {
    case HEADER: return Protocol::kMaxHeader - 1;  // the command byte is not part of the message
    case SETTINGS: return Protocol::kMaxSettings - 1;
    case DONE: return Protocol::kMaxDone - 2;
    case SIZE: return Protocol::kMaxSize - 1;
    case CHECKPOINTS: return m.cps.size() == 1 ? Protocol::getMaxLocalCheckpointLength(m.version) : INT_MAX;
    case KABORT: return Protocol::kAbortLength;
    case CHUNKSCMD: return Protocol::kChunksCmdLen;
    case FOOTER: return Protocol::kMaxFooter - 1;
    case ENCRYPTION: return Protocol::kEncryptionCmdLen - 1;
    default: {
      int64_t t = 0;
      for (auto& f : m.chunks) t += Protocol::maxEncodeLen(f);
      return t;
    }
  }
}
inline int64_t pos64(Case& c) { return (int64_t)(c.u64() & INT64_MAX); }
inline int32_t pos32(Case& c) { return (int32_t)(c.u64() & INT32_MAX); }
inline std::string genName(Case& c, size_t maxLen) {
  size_t sel = c.draw(5);
  if (sel == 0) return c.str(1, std::min<size_t>(maxLen, 12), "abc./_-");
  if (sel == 1) return c.bytes(1, std::min<size_t>(maxLen, 30));
  if (sel == 2) return c.blob(std::min(maxLen, c.pick<size_t>({127, 128, 129, 255, 256, maxLen - 1, maxLen})));
  return c.blob(c.logRange(1, maxLen));
}
inline FileChunksInfo genChunks(Case& c, size_t maxName, size_t maxChunks) {
  std::string n = genName(c, maxName);
  int64_t id = pos64(c);
  if (id == INT64_MAX) id--;  // there is no next one
  FileChunksInfo f(id, n, pos64(c));
  size_t k = c.logRange(0, maxChunks);
  bool big = c.flip();
  for (size_t i = 0; i < k; i++) {
    int64_t a = big ? pos64(c) : c.range(0, 300), b = big ? pos64(c) : a + c.range(0, 300);
    if (a > b) std::swap(a, b);
    f.addChunk(Interval(a, b));
  }
  return f;
}
// `in` is what is given to the encoder; the result is what a peer at that version must see
inline Msg genMsg(Case& c, int kind, Msg& in) {
  in.kind = kind;
  in.version = (int)c.range(0, Protocol::protocol_version + 1);
  in.version = in.version < 10 ? Protocol::protocol_version : in.version;
  int v = in.version;
  Msg exp;
  exp.kind = kind;
  exp.version = v;
  switch (kind) {
    case HEADER: {
      auto& b = in.block;
      b.fileName = genName(c, PATH_MAX);
      b.seqId = pos64(c);
      b.dataSize = pos64(c);
      b.offset = pos64(c);
      b.fileSize = pos64(c);
      b.allocationStatus = (FileAllocationStatus)c.draw(4);
      b.prevSeqId = pos64(c);
      exp.block = b;
      if (v < 13) exp.block.allocationStatus = NOT_EXISTS;
      if (v < 13 || (b.allocationStatus != EXISTS_TOO_LARGE && b.allocationStatus != EXISTS_TOO_SMALL)) exp.block.prevSeqId = 0;
      break;
    }
    case SETTINGS: {
      auto& s = in.settings;
      s.readTimeoutMillis = pos32(c);
      s.writeTimeoutMillis = pos32(c);
      s.transferId = c.chance(1, 8) ? std::string() : genName(c, Protocol::kMaxTransferIdLength);
      s.enableChecksum = c.flip();
      s.sendFileChunks = c.flip();
      s.blockModeDisabled = c.flip();
      s.enableHeartBeat = c.flip();
      exp.settings = s;
      exp.i32 = v;
      if (v < 12) exp.settings.enableChecksum = exp.settings.sendFileChunks = exp.settings.blockModeDisabled = exp.settings.enableHeartBeat = false;
      break;
    }
    case DONE:
      in.a = pos64(c);
      in.b = pos64(c);
      exp.a = in.a;
      exp.b = v >= 16 ? in.b : 0;
      break;
    case SIZE: exp.a = in.a = pos64(c); break;
    case CHECKPOINTS: {
      size_t n = c.flip() ? 1 : c.logRange(0, 40);
      for (size_t i = 0; i < n; i++) {
        Checkpoint p(pos32(c));
        p.numBlocks = pos64(c);
        p.lastBlockReceivedBytes = pos64(c);
        p.lastBlockSeqId = pos64(c);
        p.lastBlockOffset = pos64(c);
        p.hasSeqId = c.flip();
        in.cps.push_back(p);
        p.hasSeqId = v >= 21;
        if (v < 16) p.lastBlockReceivedBytes = 0;
        if (v < 21) p.lastBlockSeqId = p.lastBlockOffset = 0;
        exp.cps.push_back(p);
      }
      break;
    }
    case KABORT:
      exp.i32 = in.i32 = pos32(c);
      exp.err = in.err = (ErrorCode)c.draw(40);
      exp.a = in.a = pos64(c);
      break;
    case CHUNKSCMD:
      exp.a = in.a = pos64(c);
      exp.b = in.b = pos64(c);
      break;
    case FOOTER: exp.i32 = in.i32 = (int32_t)c.u64(); break;
    case ENCRYPTION:
      exp.enc = in.enc = (EncryptionType)c.draw(NUM_ENC_TYPES - 1);
      exp.iv = in.iv = c.flip() ? c.bytesN(kAESBlockSize) : c.bytes(0, kAESBlockSize);
      exp.i32 = in.i32 = pos32(c);
      break;
    default: {
      size_t n = c.logRange(0, 8);
      for (size_t i = 0; i < n; i++) in.chunks.push_back(genChunks(c, 300, 20));
      for (auto& f : in.chunks) {
        std::string nm = f.getFileName();
        FileChunksInfo g(f.getSeqId(), nm, f.getFileSize());
        for (auto& i : f.getChunks()) g.addChunk(i);
        exp.chunks.push_back(std::move(g));
      }
    }
  }
  return exp;
}
