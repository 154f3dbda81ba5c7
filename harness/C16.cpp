// variant: asan
// libs: core
// Undisturbed transfers copy everything exactly and report it.
#include "common_e2e.h"
using namespace e2e;
using pbt::Case;

static void genVersions(Case& c, Cfg& f) {
  auto v = [&] { return (int)(c.flip() ? c.range(10, 32) : c.pick<int>({10, 11, 12, 13, 15, 16, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32})); };
  f.sVer = v();
  f.rVer = c.chance(1, 3) ? f.sVer : v();
  // a connection cut by the negotiation may have to wait for a time-out
  if (f.sVer != f.rVer) f.readTimeout = f.writeTimeout = 3000;
}
// receiver-side files that exist before: other files stay, same names are replaced
static Tree preexisting(Case& c, Cfg& f, const Tree& src) {
  Tree t;
  if (!c.chance(1, 3)) return t;
  f.overwrite = true;
  for (auto& e : src) if (c.chance(1, 3)) t[e.first] = genContent(c, c.flip() ? e.second.size() + c.logRange(1, 5000) : c.logRange(1, 5000) % (e.second.size() + 1), false);
  for (int i = 0; i < 2; i++) if (c.flip()) { std::string n = "other" + std::to_string(i); if (!src.count(n) && !src.count("o")) t[n] = genContent(c, c.logRange(1, 300), false); }
  return t;
}
static void checkReports(Case& c, const Session& x, const Tree& want, int64_t blocks, bool firstConnection) {
  int64_t total = totalSize(want);
  PBT_EQ(c, (int)x.s.code, (int)OK, "sender: " << x.s.show() << "; receiver: " << x.r.show());
  PBT_EQ(c, (int)x.r.code, (int)OK, "receiver: " << x.r.show() << "; sender: " << x.s.show());
  // every connection stays usable
  for (auto e : x.s.threads) PBT_EQ(c, (int)e, (int)OK, "a sender connection ended with " << errorCodeToStr(e) << "; " << x.s.show());
  for (auto e : x.r.threads) PBT_EQ(c, (int)e, (int)OK, "a receiver connection ended with " << errorCodeToStr(e) << "; " << x.r.show());
  PBT_EQ(c, x.s.effBytes, total, "sender effective bytes; " << x.s.show());
  PBT_EQ(c, x.s.totalSize, total, "sender total size");
  PBT_EQ(c, x.s.discovered, (int64_t)want.size(), "sender number of files");
  PBT_CHECK(c, x.s.discoveryDone, "discovery not reported as finished");
  PBT_EQ(c, x.s.blocks, (x.cfg.fullReporting ? blocks : blocks), "sender number of blocks");
  PBT_CHECK(c, x.s.failedSources.empty() && x.s.failedDirs.empty(), "failed sources in a successful report");
  if (x.cfg.fullReporting) {
    std::map<std::string, int64_t> per;
    for (auto& e : x.s.sources) per[e.first] += e.second;
    PBT_EQ(c, (int64_t)per.size(), (int64_t)want.size(), "per-file statistics: number of files");
    for (auto& e : want) PBT_CHECK(c, per.count(e.first) && per[e.first] == (int64_t)e.second.size(), "per-file statistics of " << pbt::show(e.first) << ": " << per[e.first] << " bytes of " << e.second.size());
    PBT_EQ(c, x.s.files, (int64_t)want.size(), "sender numFiles in summary");
  }
  PBT_EQ(c, x.r.effBytes, total, "receiver effective bytes; " << x.r.show());
  PBT_EQ(c, x.r.blocks, blocks, "receiver number of blocks");
  if (firstConnection) PBT_EQ(c, x.r.dataBytes, total, "receiver data bytes");
  PBT_EQ(c, x.r.blocksSend, blocks, "number of blocks announced to the receiver");
  if (std::min(x.cfg.sVer, x.cfg.rVer) >= 16 || x.r.senderBytes != -1) PBT_EQ(c, x.r.senderBytes, total, "number of bytes announced to the receiver");
}
static void labelCfg(Case& c, const Cfg& f, const Tree& t) {
  c.label("ports=" + std::to_string(f.ports));
  c.label(std::string("enc=") + f.enc + (f.tagInterval && f.enc == "aes128gcm" ? "+tags" : ""));
  c.label(f.checksum ? "checksum" : "no checksum");
  c.label(f.blockMb <= 0 ? "whole files" : numBlocks(f, t) > (int64_t)t.size() ? "several blocks per file" : "block >= file");
  if (f.sVer != f.rVer) c.label(f.sVer < f.rVer ? "older sender" : "older receiver");
  if (f.resume) c.label(f.dirTree ? "resume: tree" : "resume: log");
  if (t.size() > 1 && totalSize(t) > 0) c.nontrivial();
}
static void verifyDest(Case& c, const Session& x, Tree want, const Tree& pre) {
  for (auto& e : pre) want.insert(e);  // does not replace
  auto d = diffTrees(want, readTree(x.dst));
  PBT_CHECK(c, d.empty(), "destination: " << d << " ; sender " << x.s.show());
}

// a whole directory, any supported settings on both sides
static void directory(Case& c) {
  Session x;
  Cfg& f = x.cfg;
  genTransport(c, f, 5);
  if (c.chance(1, 8)) x.transferId = std::string(c.range(1, 1000), 'i');
  if (c.chance(1, 3)) genVersions(c, f);
  if (c.chance(1, 3)) {
    f.resume = true;
    f.dirTree = c.flip();
    if (f.dirTree) { f.noPrealloc = true; f.blockMb = 0; }
    f.keepLog = c.flip();
    f.compaction = c.flip();
    f.deleteExtra = c.chance(1, 4);
  }
  if (c.chance(1, 8)) f.avgMb = 5 + c.range(0, 50);
  TreeOpts to;
  to.block = f.blockBytes();
  to.buf = f.bufSize;
  Tree src = genTree(c, to);
  boundBlocks(f, src);
  Tree pre;
  if (!f.resume) pre = preexisting(c, f, src);
  std::string dir = c.scratch();
  x.src = dir + "/src";
  x.dst = dir + "/dst";
  writeTree(x.src, src);
  if (!pre.empty() || c.flip()) writeTree(x.dst, pre);
  c.note([&] { return f.show() + "\nfiles: " + showTree(src) + "\nalready there: " + showTree(pre); });
  labelCfg(c, f, src);
  ErrorCode e = x.run();
  PBT_EQ(c, (int)e, (int)OK, "start failed: " << errorCodeToStr(e));
  verifyDest(c, x, src, pre);
  // a version mismatch costs one connection
  checkReports(c, x, src, numBlocks(f, src), f.sVer == f.rVer);
  auto d = diffTrees(src, readTree(x.src));
  PBT_CHECK(c, d.empty(), "source changed: " << d);
}

// an explicit list of files: names, sizes, descriptors, or a generator
static void list(Case& c) {
  Session x;
  Cfg& f = x.cfg;
  genTransport(c, f, 4);
  TreeOpts to;
  to.block = f.blockBytes();
  to.buf = f.bufSize;
  Tree src = genTree(c, to);
  boundBlocks(f, src);
  std::string dir = c.scratch();
  x.src = dir + "/src";
  x.dst = dir + "/dst";
  writeTree(x.src, src);
  Tree want;
  std::vector<WdtFileInfo> all;
  std::vector<int> fds;
  std::string how;
  for (auto& e : src) {
    if (c.chance(1, 4)) continue;  // not selected
    int64_t n = e.second.size();
    switch (c.draw(3)) {
      case 0: all.emplace_back(e.first, -1, false); how += "n"; break;
      case 1: all.emplace_back(e.first, n, f.odirect); how += "s"; break;
      case 2: {
        int fd = open((x.src + "/" + e.first).c_str(), O_RDONLY);
        fds.push_back(fd);
        all.emplace_back(fd, n, e.first);
        how += "d";
        break;
      }
      default: {
        // a descriptor may be sent under another name
        int fd = open((x.src + "/" + e.first).c_str(), O_RDONLY);
        fds.push_back(fd);
        std::string nn = "renamed/" + std::to_string(want.size());
        all.emplace_back(fd, n, nn);
        want[nn] = e.second;
        how += "r";
        continue;
      }
    }
    want[e.first] = e.second;
  }
  c.shuffle(all);
  if (c.flip()) {
    x.useList = true;
    x.list = all;
  } else {
    x.useGenerator = true;
    x.batches.push_back({});
    for (auto& i : all) {
      if (c.chance(1, 3)) x.batches.push_back({});
      x.batches.back().push_back(i);
    }
    if (c.chance(1, 3)) x.batches.push_back({});
    c.label("generator");
  }
  c.onEnd([fds] { for (int fd : fds) close(fd); });
  c.note([&] { return f.show() + "\nfiles: " + showTree(src) + "\nlisted: " + showTree(want) + how + (x.useGenerator ? " in " + std::to_string(x.batches.size()) + " batches" : ""); });
  labelCfg(c, f, want);
  ErrorCode e = x.run();
  PBT_EQ(c, (int)e, (int)OK, "start failed: " << errorCodeToStr(e));
  verifyDest(c, x, want, {});
  checkReports(c, x, want, numBlocks(f, want), true);
}

// peers of any two versions
static void versions(Case& c) {
  Session x;
  Cfg& f = x.cfg;
  genTransport(c, f, 4);
  genVersions(c, f);
  f.resume = c.chance(1, 3);
  TreeOpts to;
  to.block = f.blockBytes();
  to.buf = f.bufSize;
  to.maxFiles = 8;
  to.maxSize = 50000;
  Tree src = genTree(c, to);
  // enough small blocks, sent slowly enough, that every connection takes part
  if (c.flip()) f.blockMb = 300.0 / 1048576;
  if (c.flip()) f.avgMb = 2;
  boundBlocks(f, src, 300);
  std::string dir = c.scratch();
  x.src = dir + "/src";
  x.dst = dir + "/dst";
  writeTree(x.src, src);
  c.note([&] { return f.show() + "\nfiles: " + showTree(src); });
  labelCfg(c, f, src);
  if (f.sVer != f.rVer) c.nontrivial();
  ErrorCode e = x.run();
  PBT_EQ(c, (int)e, (int)OK, "start failed: " << errorCodeToStr(e));
  verifyDest(c, x, src, {});
  checkReports(c, x, src, numBlocks(f, src), f.sVer == f.rVer);
}

int main(int argc, char** argv) {
  return pbt::main(argc, argv, "C16",
                   {
                       {"directory", directory, 400, 12000, 90, true, "at least two files and some data"},
                       {"list", list, 200, 6000, 90, true, "at least two files and some data"},
                       {"versions", versions, 200, 6000, 90, true, "different versions, or at least two files and some data"},
                   });
}
