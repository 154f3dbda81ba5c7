// variant: asan
// libs: core
// extra: common_proc.cpp
// C15: a file source delivers exactly the requested byte range.
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <wdt/util/FileByteSource.h>
#include "common_proc.h"
#include "pbt.h"
using namespace facebook::wdt;
using pbt::Case;
namespace {
struct NoAbort : IAbortChecker { bool shouldAbort() const override { return false; } } noAbort;
const int64_t kB = 4096;
struct Reader {
  std::string got;
  int64_t reads{0};
  bool err{false};
};
// reads until the source stops; at most maxReads pieces (<0 = all)
void drain(Case& c, FileByteSource& s, const ThreadCtx& ctx, int64_t len, Reader& r, int64_t maxReads = -1) {
  const Buffer* b = ctx.getBuffer();
  while (maxReads < 0 || maxReads-- > 0) {
    if (s.finished()) {
      PBT_EQ(c, (int64_t)r.got.size(), len, "reported finished");
      int64_t sz = 77;
      PBT_CHECK(c, s.read(sz) == nullptr && sz == 0, "read after the end returned " << sz);
      PBT_CHECK(c, s.finished() && !s.hasError(), "a read after the end changes the state");
      return;
    }
    if (s.hasError()) { r.err = true; return; }
    int64_t sz = 77;
    char* p = s.read(sz);
    r.reads++;
    if (!p) {
      PBT_EQ(c, sz, 0, "null piece");
      PBT_CHECK(c, s.hasError(), "null piece, not finished before and no error; got " << r.got.size() << " of " << len);
      PBT_CHECK(c, !s.finished(), "finished and failed at once");
      r.err = true;
      return;
    }
    PBT_CHECK(c, sz > 0, "piece of size " << sz);
    PBT_CHECK(c, p >= b->getData() && p + sz <= b->getData() + b->getSize(), "piece outside the buffer: offset " << (p - b->getData()) << " size " << sz);
    r.got.append(p, sz);
    PBT_CHECK(c, (int64_t)r.got.size() <= len, "more bytes than requested");
    PBT_CHECK(c, r.reads <= len + 2, "too many reads");
  }
}
std::string makeFile(Case& c, const std::string& path, int64_t size) {
  std::string d = c.blob(size);
  writeAll(path, d);
  return d;
}
int64_t genSize(Case& c) {
  switch (c.draw(3)) {
    case 0: return c.logRange(0, 200000);
    case 1: return std::max<int64_t>(0, kB * c.range(0, 20) + c.range(-2, 2));
    case 2: return c.range(0, 9000);
    default: return c.logRange(0, 3000);
  }
}
int64_t genOff(Case& c, int64_t hi) {
  if (hi <= 0) return 0;
  switch (c.draw(3)) {
    case 0: return 0;
    case 1: return c.range(0, hi);
    case 2: return std::min(hi, std::max<int64_t>(0, kB * c.range(0, hi / kB + 1) + c.range(-2, 2)));
    default: return hi - std::min<int64_t>(hi, c.logRange(0, 5000));
  }
}
int openFds() {
  int n = 0;
  for (int i = 0; i < 256; i++)
    if (fcntl(i, F_GETFD) != -1) n++;
  return n;
}

void range(Case& c) {
  std::string path = c.scratch() + "/f";
  int64_t size = genSize(c);
  std::string data = makeFile(c, path, size);
  int64_t off = genOff(c, size);
  int64_t len = genOff(c, size - off);
  if (c.flip()) len = size - off;
  WdtOptions o;
  o.buffer_size = (int)(kB * c.logRange(1, 40));
  o.skip_fadvise = c.flip();
  o.close_on_exec = c.flip();
  bool direct = c.flip();
  bool ownFd = c.chance(1, 3);
  int before = openFds();
  {
    SourceMetaData m;
    m.fullPath = path;
    m.relPath = "f";
    m.size = size;
    m.directReads = direct;
    int fd = -1;
    if (ownFd) {
      fd = open(path.c_str(), O_RDONLY | (direct ? O_DIRECT : 0));
      if (fd < 0) c.discard();
      m.fd = fd;
    }
    ThreadCtx ctx(o, true, 0);
    ctx.setAbortChecker(&noAbort);
    FileByteSource s(&m, len, off);
    PBT_EQ(c, s.getSize(), len, "size");
    PBT_EQ(c, s.getOffset(), off, "offset");
    PBT_EQ(c, s.getIdentifier(), std::string("f"), "identifier");
    int64_t skip = 0;
    int rounds = (int)c.range(1, 3);
    c.note([&] { return "file " + std::to_string(size) + " range " + std::to_string(off) + "+" + std::to_string(len) + " buffer " + std::to_string(o.buffer_size) + (direct ? " direct" : "") + (ownFd ? " given fd" : "") + " rounds " + std::to_string(rounds); });
    for (int k = 0; k < rounds; k++) {
      if (c.chance(1, 3)) {
        int64_t adv = genOff(c, len - skip);
        s.advanceOffset(adv);
        skip += adv;
        c.note([&] { return "advance " + std::to_string(adv); });
      }
      PBT_CHECK(c, s.open(&ctx) == OK, "open failed in round " << k);
      PBT_CHECK(c, !s.hasError(), "error right after open");
      PBT_EQ(c, s.finished(), len == skip, "finished right after open");
      Reader r;
      bool partial = k + 1 < rounds && c.flip();
      drain(c, s, ctx, len - skip, r, partial ? c.range(0, 3) : -1);
      PBT_CHECK(c, !r.err, "error while reading");
      PBT_EQ(c, s.getSize(), len - skip, "remaining size after reading");
      PBT_EQ(c, s.getOffset(), off + skip, "offset after reading");
      if (!partial) PBT_EQ(c, (int64_t)r.got.size(), len - skip, "bytes delivered");
      if (data.compare(off + skip, r.got.size(), r.got) != 0) {
        size_t i = 0;
        while (r.got[i] == data[off + skip + i]) i++;
        c.fail("wrong bytes from position " + std::to_string(i) + " of the range (round " + std::to_string(k) + ")");
      }
      if (r.reads > 1) { c.nontrivial(); c.label("several pieces"); }
      if (direct && (off + skip) % kB) c.label("unaligned direct");
      PBT_EQ(c, s.getTransferStats().getLocalErrorCode(), OK, "error code of a good read");
      if (c.flip()) s.close();
    }
    s.close();
    if (ownFd) {
      PBT_CHECK(c, fcntl(fd, F_GETFD) != -1, "the given descriptor was closed by the source");
      ::close(fd);
    }
    if (len > 0) c.nontrivial();
  }
  PBT_EQ(c, openFds(), before, "descriptors left open");
  PBT_CHECK(c, readAll(path) == data, "the file changed");
}
// ranges far inside a large sparse file
void far(Case& c) {
  allowHugeFiles();
  std::string path = c.scratch() + "/f";
  int64_t n = c.logRange(1, 60000);
  int64_t base = c.flip() ? (int64_t{1} << c.range(30, 38)) + c.range(-70000, 5000) : c.range(0, int64_t{1} << 38);
  std::string data = c.blob(n);
  int fd = open(path.c_str(), O_CREAT | O_RDWR, 0644);
  if (pwrite(fd, data.data(), n, base) != n) { ::close(fd); c.discard(); }
  ::close(fd);
  WdtOptions o;
  o.buffer_size = (int)(kB * c.logRange(1, 10));
  SourceMetaData m;
  m.fullPath = path;
  m.relPath = "f";
  m.size = base + n;
  m.directReads = c.flip();
  ThreadCtx ctx(o, true, 0);
  ctx.setAbortChecker(&noAbort);
  int64_t off = genOff(c, n - 1), len = n - off, back = c.flip() ? 0 : base - c.range(0, std::min<int64_t>(base, 100000));
  c.note([&] { return "bytes at " + std::to_string(base) + "+" + std::to_string(n) + " skip " + std::to_string(off) + " source starts at " + std::to_string(back ? back : base + off) + (m.directReads ? " direct" : ""); });
  // either a source at the range, or one that starts earlier and is advanced
  FileByteSource s(&m, back ? base + n - back : len, back ? back : base + off);
  if (back) s.advanceOffset(base + off - back);
  PBT_EQ(c, s.getOffset(), base + off, "offset");
  PBT_EQ(c, s.getSize(), len, "size");
  PBT_CHECK(c, s.open(&ctx) == OK, "open");
  Reader r;
  drain(c, s, ctx, len, r);
  PBT_CHECK(c, !r.err && s.finished(), "error " << r.err);
  PBT_CHECK(c, r.got == data.substr(off), "wrong bytes");
  c.nontrivial();
}
// file shorter than announced, at open or while being read
void shrunk(Case& c) {
  std::string path = c.scratch() + "/f";
  int64_t size = std::max<int64_t>(1, genSize(c));
  std::string data = makeFile(c, path, size);
  int64_t off = genOff(c, size - 1), len = std::max<int64_t>(1, genOff(c, size - off));
  WdtOptions o;
  o.buffer_size = (int)(kB * c.logRange(1, 10));
  SourceMetaData m;
  m.fullPath = path;
  m.relPath = "f";
  m.size = size;
  m.directReads = c.flip();
  ThreadCtx ctx(o, true, 0);
  ctx.setAbortChecker(&noAbort);
  FileByteSource s(&m, len, off);
  int64_t cut = c.flip() ? genOff(c, off + len - 1) : off + genOff(c, len - 1);
  int64_t readsBefore = c.flip() ? 0 : c.range(1, 4);
  bool kill = c.chance(1, 8);
  c.note([&] { return "file " + std::to_string(size) + " range " + std::to_string(off) + "+" + std::to_string(len) + " buffer " + std::to_string(o.buffer_size) + (m.directReads ? " direct" : "") + " cut to " + std::to_string(cut) + " after " + std::to_string(readsBefore) + " reads" + (kill ? " removed before open" : ""); });
  if (kill) {
    PBT_EQ(c, ::unlink(path.c_str()), 0, "");
    PBT_CHECK(c, s.open(&ctx) != OK, "opened a file which does not exist");
    PBT_CHECK(c, s.hasError() && !s.finished(), "no error for a missing file");
    int64_t sz = 5;
    PBT_CHECK(c, s.read(sz) == nullptr && sz == 0, "read from a missing file");
    PBT_EQ(c, s.getTransferStats().getLocalErrorCode(), BYTE_SOURCE_READ_ERROR, "missing file");
    c.label("missing file");
    c.nontrivial();
    return;
  }
  if (!readsBefore) PBT_EQ(c, truncate(path.c_str(), cut), 0, "");
  PBT_CHECK(c, s.open(&ctx) == OK, "open failed");
  Reader r;
  if (readsBefore) {
    drain(c, s, ctx, len, r, readsBefore);
    PBT_EQ(c, truncate(path.c_str(), cut), 0, "");
  }
  int64_t had = r.got.size();
  if (!s.finished()) drain(c, s, ctx, len, r);
  bool complete = s.finished();
  PBT_CHECK(c, r.got == data.substr(off, r.got.size()), "wrong bytes");
  if (complete) {
    PBT_CHECK(c, had == len, "reported finished although the file was cut to " << cut << "; had " << had << " of " << len);
    c.label("was complete before");
  } else {
    PBT_CHECK(c, r.err && s.hasError(), "neither finished nor failed");
    PBT_CHECK(c, (int64_t)r.got.size() <= std::max(had, cut - off), "more bytes than the file has");
    PBT_EQ(c, s.getTransferStats().getLocalErrorCode(), BYTE_SOURCE_READ_ERROR, "file cut to " << cut);
    c.nontrivial();
    // usable again once the file is back
    if (c.flip()) {
      writeAll(path, data);
      PBT_CHECK(c, s.open(&ctx) == OK, "reopen failed");
      Reader q;
      drain(c, s, ctx, len, q);
      PBT_CHECK(c, !q.err && s.finished() && q.got == data.substr(off, len), "a reopened source does not start again: " << q.got.size() << " of " << len << " err " << q.err);
      PBT_EQ(c, s.getTransferStats().getLocalErrorCode(), OK, "error code after a good second attempt");
    }
  }
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::main(argc, argv, "C15",
                   {{"range", range, 60000, 900000, 60, false, "range not empty or read in several pieces"},
                    {"shrunk", shrunk, 30000, 500000, 60, false, "file missing or shorter than the range"},
                    {"far", far, 15000, 250000, 60, false, "every case: at least one byte far inside the file"}});
}
