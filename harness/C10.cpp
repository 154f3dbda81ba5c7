// variant: asan
// libs: core
// extra: common_proc.cpp
// C10: the work queue hands out every byte that still has to be sent exactly once.
#include <wdt/util/DirectorySourceQueue.h>
#include <algorithm>
#include <atomic>
#include <mutex>
#include <thread>
#include "common_proc.h"
#include "common_tree.h"
using namespace facebook::wdt;
using pbt::Case;
namespace {
struct Abort : IAbortChecker {
  std::atomic<bool> on{false};
  bool shouldAbort() const override { return on; }
} noAbort;
using Ranges = std::vector<std::pair<int64_t, int64_t>>;  // [start, end)
struct File {
  std::string name;
  int64_t size;
  bool explicitSize{false};
  bool gone{false};  // removed before its blocks are taken
};
struct Old {  // what the receiver has
  std::string name;
  int64_t size, seq;
  Ranges have;
};
struct Piece {
  std::string name;
  int64_t off, size, seq, prev;
  FileAllocationStatus st;
  int64_t fileSize;
};
struct World {
  std::string root;
  std::vector<File> files;
  std::vector<Old> old;
  bool useHistory{false}, del{false}, list{false};
  int64_t block{0};  // 0: splitting off
  double blockMb{0};
};
std::string fname(Case& c, size_t i) {
  static const std::vector<std::string> pre{"", "d/", "d/e/", "x y/"};
  return pre[c.draw(pre.size() - 1)] + "f" + std::to_string(i);
}
World genWorld(Case& c) {
  World w;
  w.root = c.scratch() + "/src";
  mkdir(w.root.c_str(), 0755);
  for (auto d : {"d", "d/e", "x y"}) mkdir((w.root + "/" + d).c_str(), 0755);
  bool big = c.chance(1, 5);
  if (big) {
    w.blockMb = (double)c.logRange(1, 1 << 20);
    if (c.chance(1, 4)) w.blockMb += 0.5;
  } else {
    w.blockMb = (double)c.logRange(1, 5000) / 1048576.0;
    if (c.chance(1, 3)) w.blockMb = c.flip() ? 0 : -1;
  }
  w.block = w.blockMb > 0 ? (int64_t)(w.blockMb * 1024 * 1024) : 0;
  if (w.block < 1) w.block = 0;
  int n = (int)c.logRange(0, 12);
  w.list = c.flip();
  auto sizeOf = [&]() -> int64_t {
    if (c.chance(1, 6)) return 0;
    int64_t b = w.block ? w.block : 4096;
    switch (c.draw(2)) {
      case 0: return std::max<int64_t>(0, std::min<int64_t>(b * c.range(0, 6) + c.range(-1, 1), int64_t{1} << 42));
      case 1: return c.logRange(0, std::min<int64_t>(b * 20, int64_t{1} << 42));
      default: return c.range(0, b);
    }
  };
  for (int i = 0; i < n; i++) {
    File f{fname(c, i), sizeOf()};
    f.explicitSize = w.list && c.flip();
    w.files.push_back(f);
    std::string p = w.root + "/" + f.name;
    int fd = open(p.c_str(), O_CREAT | O_WRONLY, 0644);
    if (fd < 0) c.fail("cannot create " + p);
    if (ftruncate(fd, f.size)) c.discard();
    close(fd);
  }
  w.useHistory = c.chance(3, 5);
  w.del = c.flip();
  if (w.useHistory) {
    std::vector<std::string> names;
    for (auto& f : w.files) if (c.chance(2, 3)) names.push_back(f.name);
    int extra = c.chance(1, 2) ? c.range(1, 3) : 0;
    for (int i = 0; i < extra; i++) names.push_back("extra" + std::to_string(i));
    c.shuffle(names);
    std::vector<int64_t> seqs;
    for (size_t i = 0; i < names.size() * 2; i++) seqs.push_back(i + 1);
    c.shuffle(seqs);
    int64_t seqBase = c.chance(1, 4) ? c.logRange(0, int64_t{1} << 40) : 0;
    for (size_t i = 0; i < names.size(); i++) {
      Old o;
      o.name = names[i];
      o.seq = seqs[i] + seqBase;
      int64_t cur = 1000;
      for (auto& f : w.files) if (f.name == o.name) cur = f.size;
      switch (c.draw(3)) {
        case 0: o.size = cur; break;
        case 1: o.size = c.logRange(0, std::max<int64_t>(1, cur)); break;
        case 2: o.size = cur + c.logRange(1, 5000); break;
        default: o.size = std::max<int64_t>(0, cur + c.range(-1, 1));
      }
      int64_t p = 0;
      int k = c.range(0, 5);
      if (c.chance(1, 5)) { if (o.size) o.have.push_back({0, o.size}); k = 0; }
      for (int j = 0; j < k && p < o.size; j++) {
        int64_t s = p + (c.flip() ? 0 : c.logRange(0, o.size - p));
        if (j > 0 && s == p) s++;
        if (s >= o.size) break;
        int64_t e = s + c.logRange(1, o.size - s);
        o.have.push_back({s, e});
        p = e;
      }
      w.old.push_back(o);
    }
  }
  return w;
}
std::string show(const World& w) {
  std::string r = "block " + std::to_string(w.block) + (w.list ? " list" : " directory") + (w.del ? " delete-extra" : "") + "\n";
  for (auto& f : w.files) r += "  file " + f.name + " " + std::to_string(f.size) + (f.explicitSize ? " (given)" : "") + (f.gone ? " (removed)" : "") + "\n";
  if (w.useHistory) {
    r += " receiver has:\n";
    for (auto& o : w.old) {
      r += "  " + o.name + " size " + std::to_string(o.size) + " seq " + std::to_string(o.seq) + ":";
      for (auto& x : o.have) r += " [" + std::to_string(x.first) + "," + std::to_string(x.second) + ")";
      r += "\n";
    }
  }
  return r;
}
struct Want {
  Ranges todo;  // what has to be handed out
  bool any;     // at least one source
  FileAllocationStatus st;
  int64_t seq;  // -1: new
  int64_t prev{0};
};
Want want(const World& w, const File& f) {
  const Old* o = nullptr;
  if (w.useHistory)
    for (auto& x : w.old) if (x.name == f.name) o = &x;
  if (!o) return {{{0, f.size}}, true, NOT_EXISTS, -1};
  if (o->size > f.size) return {{{0, f.size}}, true, EXISTS_TOO_LARGE, -1, o->seq};
  Want r{{}, false, o->size < f.size ? EXISTS_TOO_SMALL : EXISTS_CORRECT_SIZE, o->seq};
  int64_t p = 0;
  for (auto& x : o->have) {
    if (x.first > p) r.todo.push_back({p, x.first});
    p = x.second;
  }
  if (p < f.size) r.todo.push_back({p, f.size});
  r.any = !r.todo.empty();
  return r;
}
std::vector<FileChunksInfo> history(const World& w) {
  std::vector<FileChunksInfo> v;
  for (auto& o : w.old) {
    std::string n = o.name;
    v.emplace_back(o.seq, n, o.size);
    for (auto& x : o.have) v.back().addChunk(Interval(x.first, x.second));
  }
  return v;
}
std::vector<WdtFileInfo> fileList(const World& w) {
  std::vector<WdtFileInfo> v;
  for (auto& f : w.files) v.emplace_back(f.name, f.explicitSize ? f.size : -1, false);
  return v;
}
Piece pieceOf(ByteSource& s) {
  auto& m = s.getMetaData();
  return Piece{s.getIdentifier(), s.getOffset(), s.getSize(), m.seqId, m.prevSeqId, m.allocationStatus, m.size};
}
std::string show(const Piece& p) { return p.name + " [" + std::to_string(p.off) + ",+" + std::to_string(p.size) + ") of " + std::to_string(p.fileSize) + " seq " + std::to_string(p.seq) + " status " + std::to_string(p.st); }
// checks the accepted pieces against the model
void check(Case& c, const World& w, const std::vector<Piece>& got, int64_t& blocks, int64_t& bytes, int64_t& count) {
  std::map<std::string, std::vector<Piece>> by;
  for (auto& p : got) by[p.name].push_back(p);
  std::map<int64_t, std::string> seqOwner;
  blocks = bytes = count = 0;
  for (auto& f : w.files) {
    Want x = want(w, f);
    auto pieces = by[f.name];
    by.erase(f.name);
    if (f.gone) continue;
    if (x.any) count++;
    blocks += pieces.size();
    if (!x.any) {
      PBT_CHECK(c, pieces.empty(), "already complete, but handed out: " << show(pieces[0]));
      continue;
    }
    PBT_CHECK(c, !pieces.empty(), "never handed out: " << f.name);
    std::sort(pieces.begin(), pieces.end(), [](const Piece& a, const Piece& b) { return a.off < b.off; });
    size_t t = 0;
    int64_t pos = x.todo[0].first;
    for (auto& p : pieces) {
      PBT_CHECK(c, t < x.todo.size(), "handed out more than needed: " << show(p));
      PBT_EQ(c, p.off, pos, "start of the next piece of " << f.name << " (gap or overlap): " << show(p));
      PBT_CHECK(c, p.off >= 0 && p.off + p.size <= f.size, "outside its file: " << show(p));
      if (w.block) PBT_CHECK(c, p.size <= w.block, "larger than the block size " << w.block << ": " << show(p));
      else PBT_CHECK(c, p.size == x.todo[t].second - x.todo[t].first, "split although splitting is off: " << show(p));
      PBT_CHECK(c, p.size > 0 || f.size == 0, "empty piece of a non-empty file: " << show(p));
      PBT_EQ(c, p.fileSize, f.size, "file size in " << show(p));
      PBT_EQ(c, (int)p.st, (int)x.st, "allocation status in " << show(p));
      PBT_EQ(c, p.prev, x.prev, "previous sequence id in " << show(p));
      if (x.seq >= 0) PBT_EQ(c, p.seq, x.seq, "sequence id of a known file in " << show(p));
      PBT_EQ(c, p.seq, pieces[0].seq, "sequence ids of one file differ: " << show(p));
      pos += p.size;
      bytes += p.size;
      if (pos == x.todo[t].second) {
        t++;
        if (t < x.todo.size()) pos = x.todo[t].first;
      }
      PBT_CHECK(c, t >= x.todo.size() || pos < x.todo[t].second || x.todo[t].first == x.todo[t].second, "piece runs into received data: " << show(p));
    }
    PBT_EQ(c, t, x.todo.size(), "not all of " << f.name << " handed out");
    auto ins = seqOwner.insert({pieces[0].seq, f.name});
    PBT_CHECK(c, ins.second, "sequence id " << pieces[0].seq << " given to two files: " << ins.first->second << " and " << f.name);
    if (x.seq < 0 && w.useHistory)
      for (auto& o : w.old) PBT_CHECK(c, o.seq != pieces[0].seq, "new file gets a sequence id the receiver already uses: " << show(pieces[0]));
  }
  if (w.useHistory && w.del)
    for (auto& o : w.old) {
      bool there = false;
      for (auto& f : w.files) there |= f.name == o.name;
      if (there) continue;
      auto pieces = by[o.name];
      by.erase(o.name);
      PBT_EQ(c, pieces.size(), (size_t)1, "deletion entries for " << o.name);
      PBT_EQ(c, (int)pieces[0].st, (int)TO_BE_DELETED, "status of extra file");
      PBT_CHECK(c, pieces[0].size == 0 && pieces[0].off == 0, "extra file with content: " << show(pieces[0]));
      PBT_EQ(c, pieces[0].seq, o.seq, "sequence id of extra file");
      blocks++;
      count++;
      c.label("deletion listed");
    }
  for (auto& p : by)
    if (!p.second.empty()) c.fail("handed out a file that was not asked for: " + show(p.second[0]));
}
// order once discovery has finished: deletions, fewer failures, larger, earlier offset
bool before(const Piece& a, int64_t fa, const Piece& b, int64_t fb) {
  bool da = a.st == TO_BE_DELETED, db = b.st == TO_BE_DELETED;
  if (da != db) return da;
  if (fa != fb) return fa < fb;
  if (a.size != b.size) return a.size > b.size;
  return true;
}
void configure(DirectorySourceQueue& q, const World& w, int consumers) {
  q.setBlockSizeMbytes(w.blockMb);
  q.setNumClientThreads(consumers);
  if (w.del) q.enableFileDeletion();
  if (w.list) q.setFileInfo(fileList(w));
}
void totals(Case& c, DirectorySourceQueue& q, const World& w, int64_t blocks, int64_t bytes, int64_t count) {
  PBT_EQ(c, q.getCount(), count, "number of files");
  PBT_EQ(c, q.getTotalSize(), bytes, "total size");
  PBT_EQ(c, q.getNumBlocksAndStatus().first, blocks, "number of blocks");
  int64_t prev = 0;
  if (w.useHistory)
    for (auto& f : w.files)
      for (auto& o : w.old)
        if (o.name == f.name && o.size <= f.size)
          for (auto& x : o.have) prev += x.second - x.first;
  PBT_EQ(c, q.getPreviouslySentBytes(), prev, "bytes sent before");
}
void classify(Case& c, const World& w, size_t pieces) {
  if (pieces > w.files.size() + 1) { c.label("split"); c.nontrivial(); }
  if (w.useHistory && !w.old.empty()) { c.label("history"); c.nontrivial(); }
}

// one consumer, everything known before it starts: order is defined
void sequential(Case& c) {
  World w = genWorld(c);
  WdtOptions o;
  DirectorySourceQueue q(o, w.root, &noAbort);
  configure(q, w, c.range(1, 4));
  auto h = history(w);
  bool early = w.useHistory && c.flip();
  if (early) q.setPreviouslyReceivedChunks(h);
  PBT_CHECK(c, q.buildQueueSynchronously(), "build failed");
  if (w.useHistory && !early) q.setPreviouslyReceivedChunks(h);
  bool someGone = c.chance(1, 5);
  if (someGone)
    for (auto& f : w.files)
      if (c.chance(1, 3)) { f.gone = true; unlink((w.root + "/" + f.name).c_str()); }
  c.note([&] { return show(w) + (early ? " history first" : ""); });
  ThreadCtx ctx(o, true, 0);
  ctx.setAbortChecker(&noAbort);
  std::vector<Piece> acc;
  std::vector<std::unique_ptr<ByteSource>> held;
  std::map<std::string, int64_t> fails;
  auto key = [](const Piece& p) { return p.name + "@" + std::to_string(p.off); };
  Piece last;
  int64_t lastFails = 0;
  bool haveLast = false;
  int64_t returns = 0;
  bool sawFailure = false;
  int budget = (int)c.logRange(0, 40);
  while (true) {
    if (!held.empty() && c.chance(1, 3)) {  // give some back
      if (c.flip()) {
        returns += held.size();
        q.returnToQueue(held);
        held.clear();
      } else {
        q.returnToQueue(held.back());
        held.pop_back();
        returns++;
      }
      haveLast = false;
      PBT_CHECK(c, !q.finished(), "finished although sources were returned");
    }
    bool fin = q.finished();
    ErrorCode st = ABORT;
    auto s = q.getNextSource(&ctx, st);
    if (!s) {
      if (!fin) PBT_CHECK(c, someGone, "not finished, but nothing was handed out");
      PBT_CHECK(c, q.finished(), "nothing left, but not finished");
      if (held.empty()) break;
      returns += held.size();
      q.returnToQueue(held);
      held.clear();
      haveLast = false;
      budget = 0;
      continue;
    }
    PBT_CHECK(c, !fin, "handed out a source after reporting finished");
    Piece p = pieceOf(*s);
    if (st != OK) { sawFailure = true; PBT_CHECK(c, someGone, "status " << errorCodeToStr(st)); }
    int64_t nf = fails[key(p)];
    PBT_EQ(c, s->getTransferStats().getFailedAttempts(), nf, "failed attempts of " << show(p));
    if (haveLast) PBT_CHECK(c, before(last, lastFails, p, nf), "order: " << show(last) << " failed " << lastFails << " before " << show(p) << " failed " << nf);
    last = p;
    lastFails = nf;
    haveLast = true;
    if (budget > 0 && c.chance(1, 3)) {
      budget--;
      if (c.flip()) { s->getTransferStats().incrFailedAttempts(); fails[key(p)]++; }
      else if (w.block && c.flip() && p.st != TO_BE_DELETED) {
        int64_t adv = c.range(0, p.size);
        if (adv < p.size && adv > 0) {
          // the receiver got the beginning of this block
          Piece part = p;
          part.size = adv;
          acc.push_back(part);
          s->advanceOffset(adv);
          fails[p.name + "@" + std::to_string(p.off + adv)] = fails[key(p)];
        }
      }
      held.push_back(std::move(s));
      continue;
    }
    acc.push_back(p);
  }
  for (auto& p : acc)
    for (auto& f : w.files)
      if (f.gone && f.name == p.name) c.fail("handed out a block of a removed file: " + show(p));
  int64_t blocks, bytes, count;
  check(c, w, acc, blocks, bytes, count);
  if (!someGone) {
    // advanced blocks were accepted in two parts
    PBT_EQ(c, q.getCount(), count, "number of files");
    PBT_EQ(c, q.getTotalSize(), bytes, "total size");
    totals(c, q, w, q.getNumBlocksAndStatus().first, bytes, count);
    PBT_CHECK(c, q.getNumBlocksAndStatus().first <= blocks, "blocks counted: " << q.getNumBlocksAndStatus().first << " handed out: " << blocks);
    PBT_CHECK(c, q.getNumBlocksAndStatus().second == OK && q.getFailedSourceStats().empty(), "failed sources on a good tree");
  } else {
    // every block of a removed file is recorded as failed
    int64_t failed = 0;
    for (auto& s : q.getFailedSourceStats()) {
      bool gone = false;
      for (auto& f : w.files) gone |= f.gone && f.name == s.getId();
      PBT_CHECK(c, gone, "recorded as failed: " << s.getId());
      PBT_CHECK(c, s.getLocalErrorCode() != OK, "failed source without error");
      failed++;
    }
    for (auto& f : w.files)
      if (f.gone && want(w, f).any) {
        bool rec = false;
        for (auto& s : q.getFailedSourceStats()) rec |= s.getId() == f.name;
        PBT_CHECK(c, rec, "removed file not recorded as failed: " << f.name);
      }
    if (failed) {
      PBT_CHECK(c, q.getNumBlocksAndStatus().second != OK, "status with failed sources");
      c.label("failed sources");
    }
    (void)sawFailure;
  }
  if (returns) c.label("returned");
  classify(c, w, acc.size());
}

// several consumers while discovery is running
void concurrent(Case& c) {
  World w = genWorld(c);
  WdtOptions o;
  int consumers = c.range(1, 6);
  c.note([&] { return show(w) + " consumers " + std::to_string(consumers); });
  DirectorySourceQueue q(o, w.root, &noAbort);
  configure(q, w, consumers);
  auto h = history(w);
  // the list arrives while discovery runs, but before anything is taken
  int when = w.useHistory ? c.draw(2) : -1;
  uint64_t seed = c.draw(~0ULL);
  int retPct = c.range(0, 40);
  std::thread builder;
  if (when == 0) q.setPreviouslyReceivedChunks(h);
  builder = q.buildQueueAsynchronously();
  if (when == 1) q.setPreviouslyReceivedChunks(h);
  if (when == 2) { builder.join(); q.setPreviouslyReceivedChunks(h); }
  std::mutex mu;
  std::vector<Piece> acc;
  std::atomic<int> held{0};
  std::string bad;
  auto consumer = [&](int id) {
    pbt::Rng r(seed + id);
    ThreadCtx ctx(o, true, id);
    ctx.setAbortChecker(&noAbort);
    std::vector<Piece> mine;
    std::string err;
    int budget = 15;
    while (true) {
      ErrorCode st;
      held++;
      auto s = q.getNextSource(&ctx, st);
      if (!s) {
        held--;
        // another consumer may still give something back
        if (held == 0 && q.finished()) break;
        std::this_thread::yield();
        continue;
      }
      if (st != OK) err = "status " + errorCodeToStr(st);
      if (budget > 0 && (int)r.below(100) < retPct) {
        budget--;
        if (r.below(2)) s->getTransferStats().incrFailedAttempts();
        if (r.below(4) == 0) std::this_thread::yield();
        q.returnToQueue(s);
        held--;
        continue;
      }
      mine.push_back(pieceOf(*s));
      held--;
    }
    std::lock_guard<std::mutex> l(mu);
    acc.insert(acc.end(), mine.begin(), mine.end());
    if (!err.empty()) bad = err;
  };
  std::vector<std::thread> th;
  for (int i = 0; i < consumers; i++) th.emplace_back(consumer, i);
  for (auto& t : th) t.join();
  if (builder.joinable()) builder.join();
  PBT_CHECK(c, bad.empty(), bad);
  PBT_CHECK(c, q.finished() && q.fileDiscoveryFinished(), "not finished at the end");
  int64_t blocks, bytes, count;
  check(c, w, acc, blocks, bytes, count);
  totals(c, q, w, blocks, bytes, count);
  PBT_CHECK(c, q.getFailedSourceStats().empty(), "failed sources");
  if (consumers > 1) c.label("several consumers");
  classify(c, w, acc.size());
}

// files from a generator, batch after batch, each waiting for the previous one
void generator(Case& c) {
  World w = genWorld(c);
  w.useHistory = false;
  w.list = true;
  w.del = false;
  WdtOptions o;
  int consumers = c.range(1, 4);
  size_t first = c.range(0, w.files.size());
  std::vector<size_t> cuts{first};
  while (cuts.back() < w.files.size() || c.chance(1, 3)) {
    cuts.push_back(std::min(w.files.size(), cuts.back() + c.range(0, 4)));
    if (cuts.size() > 12) break;
  }
  if (cuts.back() != w.files.size()) cuts.push_back(w.files.size());
  c.note([&] { std::string s = show(w) + " consumers " + std::to_string(consumers) + " batches end at"; for (auto x : cuts) s += " " + std::to_string(x); return s; });
  auto all = fileList(w);
  DirectorySourceQueue q(o, w.root, &noAbort);
  q.setBlockSizeMbytes(w.blockMb);
  q.setNumClientThreads(consumers);
  q.setFileInfo(std::vector<WdtFileInfo>(all.begin(), all.begin() + first));
  std::atomic<int> busy{0}, running{consumers};
  std::atomic<int64_t> taken{0};
  std::string bad;
  size_t batch = 0;
  bool wait = c.chance(3, 4);
  q.setFileInfoGenerator([&]() -> folly::Optional<std::vector<WdtFileInfo>> {
    if (wait) {
      q.waitForPreviousTransfer(std::chrono::milliseconds(2), [&] { return (int64_t)running; });
      if (busy != 0) bad = "asked for the next batch while a source is being consumed";
      int64_t n = q.getNumBlocksAndStatus().first;
      if (taken != n) bad = "asked for the next batch with sources left: taken " + std::to_string(taken) + " of " + std::to_string(n);
    }
    if (batch + 1 >= cuts.size()) return folly::none;
    size_t a = cuts[batch], b = cuts[batch + 1];
    batch++;
    return std::vector<WdtFileInfo>(all.begin() + a, all.begin() + b);
  });
  std::thread builder = q.buildQueueAsynchronously();
  std::mutex mu;
  std::vector<Piece> acc;
  std::vector<std::thread> th;
  for (int i = 0; i < consumers; i++)
    th.emplace_back([&, i] {
      ThreadCtx ctx(o, true, i);
      ctx.setAbortChecker(&noAbort);
      while (true) {
        ErrorCode st;
        auto s = q.getNextSource(&ctx, st);
        if (!s) break;
        busy++;
        std::this_thread::yield();
        { std::lock_guard<std::mutex> l(mu); acc.push_back(pieceOf(*s)); }
        taken++;
        busy--;
      }
      running--;
    });
  builder.join();
  for (auto& t : th) t.join();
  PBT_CHECK(c, bad.empty(), bad);
  PBT_EQ(c, batch + 1, cuts.size(), "batches asked for");
  int64_t blocks, bytes, count;
  check(c, w, acc, blocks, bytes, count);
  totals(c, q, w, blocks, bytes, count);
  PBT_EQ(c, q.getFileInfo().size(), all.size(), "files listed at the end");
  if (cuts.size() > 1 && !w.files.empty()) c.nontrivial();
  if (wait) c.label("waits for the previous batch");
}

// a list with a missing file, or an abort while the list is read
void brokenList(Case& c) {
  World w = genWorld(c);
  w.useHistory = false;
  w.list = true;
  w.del = false;
  WdtOptions o;
  DirectorySourceQueue q(o, w.root, &noAbort);
  q.setBlockSizeMbytes(w.blockMb);
  auto l = fileList(w);
  size_t at = c.range(0, l.size());
  std::string miss = c.flip() ? "missing" : "d/missing";
  l.insert(l.begin() + at, WdtFileInfo(miss, -1, false));
  c.note([&] { return show(w) + " missing file at " + std::to_string(at); });
  q.setFileInfo(l);
  PBT_CHECK(c, !q.buildQueueSynchronously(), "build succeeded with a missing file");
  PBT_CHECK(c, q.fileDiscoveryFinished(), "discovery not finished");
  PBT_EQ(c, q.getNumBlocksAndStatus().second, BYTE_SOURCE_READ_ERROR, "status");
  ThreadCtx ctx(o, true, 0);
  ctx.setAbortChecker(&noAbort);
  std::vector<Piece> acc;
  while (true) {
    ErrorCode st = OK;
    auto s = q.getNextSource(&ctx, st);
    PBT_CHECK(c, st != OK, "ok status although a file is missing");
    if (!s) break;
    acc.push_back(pieceOf(*s));
  }
  PBT_CHECK(c, q.finished(), "not finished");
  // the files before the missing one are complete, whatever was listed after it
  World part = w;
  part.files.resize(at);
  std::vector<Piece> head;
  for (auto& p : acc)
    for (size_t i = 0; i < at; i++) if (w.files[i].name == p.name) { head.push_back(p); break; }
  int64_t blocks, bytes, count;
  check(c, part, head, blocks, bytes, count);
  bool rec = false;
  for (auto& s : q.getFailedSourceStats()) rec |= s.getId() == miss && s.getLocalErrorCode() == BYTE_SOURCE_READ_ERROR;
  PBT_CHECK(c, rec, "missing file not recorded as failed");
  c.nontrivial();
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::main(argc, argv, "C10",
                   {{"sequential", sequential, 12000, 200000, 60, false, "files split into blocks, or a history of received chunks"},
                    {"concurrent", concurrent, 6000, 90000, 60, true, "files split into blocks, or a history of received chunks"},
                    {"generator", generator, 4000, 60000, 60, true, "at least one batch from the generator and at least one file"},
                    {"broken_list", brokenList, 2000, 30000, 60, false, "every case"}});
}
