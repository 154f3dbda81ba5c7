// variant: asan
// libs: core
// extra: common_proc.cpp
// C11: checkpoint accounting.  Simulated connections (blocks written, fully or partly received,
// broken, reported as local or global checkpoints, faithful or lying) run against the real
// transfer histories and work queue; an independent ledger of what the receiver accounted for
// must, together with what ends up acknowledged and what is back in the queue, cover every byte
// of every file exactly once.
#include <wdt/util/ThreadTransferHistory.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <mutex>
#include <thread>
#include "common_proc.h"
#include "common_tree.h"
#include "pbt.h"
using namespace facebook::wdt;
using pbt::Case;
namespace {
struct Abort : IAbortChecker {
  bool shouldAbort() const override { return false; }
} noAbort;
enum Mode { MODERN, NO_PARTIAL, OLD16, OLD15 };  // what the receiver reports about partial blocks
struct Sent {
  std::string name;
  int64_t seq, off, size, header;
  bool ok;
  int64_t written;
};
struct Range { int64_t off, size; };
using Ledger = std::map<std::string, std::vector<Range>>;
struct World {
  std::string root;
  std::vector<std::pair<std::string, int64_t>> files;
  double blockMb;
  Mode mode;
};
World genWorld(Case& c) {
  World w;
  w.root = c.scratch() + "/src";
  mkdir(w.root.c_str(), 0755);
  int n = (int)c.logRange(1, 8);
  w.blockMb = c.chance(1, 4) ? 0 : (double)c.logRange(1, 3000) / 1048576.0;
  for (int i = 0; i < n; i++) {
    std::string f = "f" + std::to_string(i);
    int64_t sz = c.chance(1, 6) ? 0 : c.logRange(1, 20000);
    int64_t b = (int64_t)(w.blockMb * 1048576);
    if (b > 0 && sz / b > 40) sz = b * 40;
    w.files.push_back({f, sz});
    int fd = open((w.root + "/" + f).c_str(), O_CREAT | O_WRONLY, 0644);
    if (fd < 0 || ftruncate(fd, sz)) c.fail("cannot create file");
    close(fd);
  }
  w.mode = (Mode)c.weighted({5, 2, 2, 1});
  return w;
}
std::string show(const World& w) {
  std::string r = "block " + std::to_string((int64_t)(w.blockMb * 1048576)) + " mode " + std::to_string(w.mode) + " files";
  for (auto& f : w.files) r += " " + f.first + ":" + std::to_string(f.second);
  return r;
}
std::string show(const Checkpoint& k) { std::ostringstream o; o << k << " has-seq-id " << k.hasSeqId; return o.str(); }
Sent sentOf(ByteSource& s) { return Sent{s.getIdentifier(), s.getMetaData().seqId, s.getOffset(), s.getSize(), 0, true, 0}; }

// what sendOneByteSource does to the statistics
Sent simulateSend(std::unique_ptr<ByteSource>& src, bool ok, int64_t written, bool headerOk, TransferStats& threadStats, int64_t header) {
  Sent r = sentOf(*src);
  TransferStats st;
  r.ok = ok;
  r.header = header;
  if (headerOk) st.addHeaderBytes(header);
  r.written = headerOk ? written : -1;  // -1: not even the header went out
  if (headerOk) st.addDataBytes(written);
  if (ok) {
    st.setLocalErrorCode(OK);
    st.incrNumBlocks();
    st.addEffectiveBytes(header, r.size);
  } else {
    st.setLocalErrorCode(SOCKET_WRITE_ERROR);
    st.incrFailedAttempts();
  }
  threadStats += st;
  src->addTransferStats(st);
  src->close();
  return r;
}
// compares ledger + rest with the files
void checkCoverage(Case& c, const World& w, Ledger all, const char* what) {
  for (auto& f : w.files) {
    auto v = all[f.first];
    all.erase(f.first);
    if (f.second == 0) continue;
    v.erase(std::remove_if(v.begin(), v.end(), [](const Range& r) { return r.size == 0; }), v.end());
    std::sort(v.begin(), v.end(), [](const Range& a, const Range& b) { return a.off < b.off; });
    int64_t p = 0;
    for (auto& r : v) {
      PBT_CHECK(c, r.size > 0, what << ": negative size in " << f.first << " at " << r.off);
      PBT_EQ(c, r.off, p, what << ": bytes of " << f.first << (r.off > p ? " lost" : " accounted for twice") << " (next piece size " << r.size << ", file size " << f.second << ")");
      p += r.size;
    }
    PBT_EQ(c, p, f.second, what << ": end of " << f.first << " lost");
  }
  for (auto& x : all) PBT_CHECK(c, x.second.empty(), "unknown file " << x.first);
}
struct Port {
  int32_t port;
  std::unique_ptr<TransferStats> stats;
  ThreadTransferHistory* h;
  std::vector<Sent> hist;   // mirror of the history
  size_t connStart{0};      // first history index of the current connection
  int64_t received{0};      // cumulative complete blocks at the receiver
  int64_t reported{0};      // last numBlocks the sender was told
  Checkpoint details;       // receiver's partial block
  bool haveLast{false};
  Checkpoint last;          // last accepted checkpoint
  bool finished{false};
};
Checkpoint visible(const World& w, const Port& p) {
  Checkpoint k(p.port);
  k.numBlocks = p.received;
  k.hasSeqId = w.mode == MODERN || w.mode == NO_PARTIAL;
  if (w.mode == MODERN) k.setLastBlockDetails(p.details.lastBlockSeqId, p.details.lastBlockOffset, p.details.lastBlockReceivedBytes);
  if (w.mode == OLD16) k.lastBlockReceivedBytes = p.details.lastBlockReceivedBytes;
  return k;
}
// Decides what of the connection's blocks [connStart, end) arrived.
void breakConnection(Case& c, const World& w, Port& p, const std::vector<Sent>& hist, bool all) {
  size_t n = hist.size() - p.connStart;
  size_t okBlocks = 0;
  while (okBlocks < n && hist[p.connStart + okBlocks].ok) okBlocks++;
  size_t k = all ? okBlocks : c.draw(okBlocks);
  if (k > 0) p.details.resetLastBlockDetails();
  p.received += k;
  if (k < n) {
    const Sent& b = hist[p.connStart + k];
    bool seen = b.written >= 0 && (c.flip() || (w.mode == OLD16 && p.details.lastBlockReceivedBytes > 0));
    if (!seen && w.mode == OLD16 && p.details.lastBlockReceivedBytes > 0) p.details.resetLastBlockDetails();
    if (seen) {
      p.details.resetLastBlockDetails();
      int64_t most = b.ok ? b.size - 1 : std::min(b.written, b.size);
      if (most > 0 && c.chance(3, 4)) p.details.setLastBlockDetails(b.seq, b.off, c.range(0, most));
      else if (c.flip()) p.details.setLastBlockDetails(b.seq, b.off, 0);
    }
  }
}
// applies an accepted checkpoint to the mirror and the ledger
void applyMirror(const World& w, const Checkpoint& k, std::vector<Sent>& hist, Ledger& partial) {
  if ((int64_t)hist.size() > k.numBlocks) {
    const Sent& b = hist[k.numBlocks];
    bool match = k.hasSeqId ? (k.lastBlockSeqId == b.seq && k.lastBlockOffset == b.off) : true;
    if (match && k.lastBlockReceivedBytes > 0 && k.lastBlockReceivedBytes <= b.size) partial[b.name].push_back({b.off, k.lastBlockReceivedBytes});
    hist.resize(k.numBlocks);
  }
}
std::vector<Checkpoint> lies(Case& c, const World& w, const Port& p) {
  std::vector<Checkpoint> v;
  Checkpoint k = visible(w, p);
  auto add = [&](std::function<void(Checkpoint&)> f) { Checkpoint x = k; f(x); v.push_back(x); };
  add([&](Checkpoint& x) { x.numBlocks = (int64_t)p.hist.size() + c.logRange(1, 1 << 20); });
  add([&](Checkpoint& x) { x.numBlocks = -c.logRange(1, 1 << 20); });
  add([&](Checkpoint& x) { x.lastBlockReceivedBytes = -c.logRange(1, int64_t{1} << 40); });
  if (p.haveLast && p.last.numBlocks > 0) add([&](Checkpoint& x) { x.numBlocks = c.range(0, p.last.numBlocks - 1); });
  if (p.received < (int64_t)p.hist.size() && k.hasSeqId) {
    auto& b = p.hist[p.received];
    add([&](Checkpoint& x) { x.setLastBlockDetails(b.seq, b.off, b.size + c.logRange(1, int64_t{1} << 40)); });
  }
  if (p.haveLast && p.last.lastBlockReceivedBytes > 1 && p.last.hasSeqId && p.received == p.last.numBlocks)
    add([&](Checkpoint& x) { x = p.last; x.lastBlockReceivedBytes--; });
  return v;
}
void finalChecks(Case& c, const World& w, DirectorySourceQueue& q, ThreadCtx& ctx, std::vector<Port>& ports, Ledger partial, int64_t partialBytes) {
  int64_t tFail = 0, tData = 0, tEff = 0, tBlocks = 0, tHead = 0, sFail = 0, sData = 0, sEff = 0, sBlocks = 0, sHead = 0;
  int64_t ackedBytes = 0, ackedBlocks = 0, ackedHeader = 0;
  Ledger all = partial;
  auto addS = [&](const TransferStats& s) { sFail += s.getFailedAttempts(); sData += s.getDataBytes(); sEff += s.getEffectiveDataBytes(); sBlocks += s.getNumBlocks(); sHead += s.getEffectiveHeaderBytes(); };
  for (auto& p : ports) {
    auto v = p.h->popAckedSourceStats();
    PBT_EQ(c, v.size(), p.hist.size(), "acknowledged sources of port " << p.port);
    std::multiset<std::string> a, b;
    for (auto& s : v) {
      addS(s);
      a.insert(s.getId());
    }
    for (auto& s : p.hist) {
      b.insert(s.name);
      all[s.name].push_back({s.off, s.size});
      ackedBytes += s.size;
      ackedBlocks++;
      ackedHeader += s.header;
    }
    PBT_CHECK(c, a == b, "other sources acknowledged than received on port " << p.port);
    tFail += p.stats->getFailedAttempts();
    tData += p.stats->getDataBytes();
    tEff += p.stats->getEffectiveDataBytes();
    tBlocks += p.stats->getNumBlocks();
    tHead += p.stats->getEffectiveHeaderBytes();
  }
  ErrorCode st;
  while (auto s = q.getNextSource(&ctx, st)) {
    PBT_CHECK(c, s->getSize() >= 0 && s->getOffset() >= 0, "bad range back in the queue: " << s->getIdentifier() << " " << s->getOffset() << " +" << s->getSize());
    all[s->getIdentifier()].push_back({s->getOffset(), s->getSize()});
    addS(s->getTransferStats());
    s->close();
  }
  checkCoverage(c, w, all, "acknowledged + partial + queue");
  PBT_EQ(c, tFail, sFail, "failed attempts of threads and sources");
  PBT_EQ(c, tData, sData, "data bytes of threads and sources");
  PBT_EQ(c, tEff, sEff, "effective data bytes of threads and sources");
  PBT_EQ(c, tBlocks, sBlocks, "blocks of threads and sources");
  PBT_EQ(c, tHead, sHead, "effective header bytes of threads and sources");
  PBT_EQ(c, tBlocks, ackedBlocks, "blocks counted as sent and blocks acknowledged");
  PBT_EQ(c, tEff, ackedBytes + partialBytes, "effective bytes and bytes the receiver accounted for");
  PBT_EQ(c, tHead, ackedHeader, "effective header bytes and headers of acknowledged blocks");
}
int64_t total(const Ledger& l) {
  int64_t t = 0;
  for (auto& x : l) for (auto& r : x.second) t += r.size;
  return t;
}

// one thread drives all ports; every step has an exactly known outcome
void scripted(Case& c) {
  World w = genWorld(c);
  WdtOptions o;
  DirectorySourceQueue q(o, w.root, &noAbort);
  q.setBlockSizeMbytes(w.blockMb);
  int np = c.range(1, 3);
  q.setNumClientThreads(np);
  PBT_CHECK(c, q.buildQueueSynchronously(), "build failed");
  ThreadCtx ctx(o, true, 0);
  ctx.setAbortChecker(&noAbort);
  TransferHistoryController ctl(q);
  std::vector<Port> ports(np);
  for (int i = 0; i < np; i++) {
    ports[i].port = 1000 + i;
    ports[i].stats = std::make_unique<TransferStats>(true);
    ctl.addThreadHistory(ports[i].port, *ports[i].stats);
    ports[i].h = &ctl.getTransferHistory(ports[i].port);
  }
  Ledger partial;
  c.note([&] { return show(w) + " ports " + std::to_string(np); });
  int steps = (int)c.logRange(1, 60);
  int breaks = 0, lied = 0, globals = 0;
  auto note = [&](const Port& p, const std::string& s) { c.note([&] { return " port " + std::to_string(p.port) + ": " + s + " (history " + std::to_string(p.hist.size()) + ")"; }); };
  auto tellLies = [&](Port& p) {
    auto v = lies(c, w, p);
    Checkpoint k = v[c.draw(v.size() - 1)];
    note(p, "lie " + show(k));
    int64_t before = p.h->getNumAcked();
    ErrorCode e = p.h->setLocalCheckpoint(k);
    PBT_EQ(c, (int)e, (int)INVALID_CHECKPOINT, "contradicting checkpoint accepted: " << show(k));
    PBT_EQ(c, p.h->getNumAcked(), before, "contradicting checkpoint changed what is acknowledged: " << show(k));
    lied++;
  };
  auto accept = [&](Port& p, const Checkpoint& k) {
    applyMirror(w, k, p.hist, partial);
    p.last = k;
    p.haveLast = true;
    p.reported = k.numBlocks;
  };
  for (int i = 0; i < steps; i++) {
    std::vector<size_t> live;
    for (size_t x = 0; x < ports.size(); x++) if (!ports[x].finished) live.push_back(x);
    if (live.empty()) break;
    Port& p = ports[live[c.draw(live.size() - 1)]];
    ErrorCode st;
    bool wantBlock = c.chance(3, 4) && !q.finished();
    std::unique_ptr<ByteSource> s = wantBlock ? q.getNextSource(&ctx, st) : nullptr;
    bool failed = false;
    if (s) {
      failed = c.chance(1, 4);
      bool headerOk = !failed || c.chance(3, 4);
      int64_t written = failed ? (headerOk ? c.range(0, std::max<int64_t>(0, s->getSize() - 1)) : 0) : s->getSize();
      int64_t header = c.range(10, 60);
      bool midGlobal = c.chance(1, 12);
      if (midGlobal) {
        // the receiver's thread died earlier on this connection and another sender thread hears
        // about it while this block is being written
        breakConnection(c, w, p, p.hist, false);
        Checkpoint k = visible(w, p);
        // nothing later than what arrived before can be received; the current block may be the
        // one which was received partially
        if (p.received == (int64_t)p.hist.size() && headerOk && c.flip() && w.mode != OLD15) {
          Sent b = sentOf(*s);
          int64_t most = failed ? written : b.size - 1;
          if (most > 0) p.details.setLastBlockDetails(b.seq, b.off, c.range(1, most));
          k = visible(w, p);
        } else if (w.mode == OLD16 && p.received == (int64_t)p.hist.size()) {
          p.details.resetLastBlockDetails();
          k = visible(w, p);
        }
        Sent b = sentOf(*s);
        note(p, "global while sending " + b.name + " " + std::to_string(b.off) + "+" + std::to_string(b.size) + ": " + show(k));
        size_t before = p.hist.size();
        p.finished = true;
        int64_t known = c.range(1, 2);  // the same global checkpoint reaches several threads
        std::thread t([&] { for (int r = 0; r < known; r++) ctl.handleGlobalCheckpoint(k); });
        while (!p.h->isGlobalCheckpointReceived()) std::this_thread::yield();
        accept(p, k);
        Sent done = simulateSend(s, !failed, written, headerOk, *p.stats, header);
        bool added = p.h->addSource(s);
        p.h->markNotInUse();
        t.join();
        PBT_CHECK(c, !added, "a block was added after the global checkpoint");
        if (k.numBlocks == (int64_t)before) {
          std::vector<Sent> one(before);
          one.push_back(done);
          Checkpoint kk = k;
          applyMirror(w, kk, one, partial);
        }
        globals++;
        continue;
      }
      Sent done = simulateSend(s, !failed, written, headerOk, *p.stats, header);
      note(p, (failed ? "failed " : "sent ") + done.name + " " + std::to_string(done.off) + "+" + std::to_string(done.size) + " written " + std::to_string(done.written));
      PBT_CHECK(c, p.h->addSource(s), "source refused without a global checkpoint");
      p.hist.push_back(done);
      PBT_EQ(c, p.h->getSourceId((int64_t)p.hist.size() - 1), done.name, "last source of the history");
      PBT_EQ(c, p.h->getSourceId((int64_t)p.hist.size()), std::string(), "source id past the end");
    }
    if (c.chance(1, 10)) tellLies(p);
    if (failed || c.chance(1, 6)) {
      breakConnection(c, w, p, p.hist, false);
      breaks++;
      if (c.chance(1, 8)) tellLies(p);
      switch (c.weighted({6, 2, 1, 1})) {
        case 0: {  // reconnected: local checkpoint
          Checkpoint k = visible(w, p);
          ErrorCode e = p.h->setLocalCheckpoint(k);
          note(p, "local " + show(k) + " -> " + std::to_string(e));
          PBT_CHECK(c, e == OK || e == NO_PROGRESS, "good checkpoint refused (" << e << "): " << show(k) << " after " << (p.haveLast ? show(p.last) : std::string("none")));
          bool same = p.haveLast && k.numBlocks == p.last.numBlocks &&
                      (k.lastBlockReceivedBytes == 0 || (k.lastBlockReceivedBytes == p.last.lastBlockReceivedBytes && k.lastBlockSeqId == p.last.lastBlockSeqId && k.lastBlockOffset == p.last.lastBlockOffset));
          if (w.mode != OLD16) PBT_EQ(c, e == NO_PROGRESS, same, "progress of " << show(k) << " after " << (p.haveLast ? show(p.last) : std::string("none")));
          accept(p, k);
          PBT_EQ(c, p.h->getNumAcked(), k.numBlocks, "acknowledged after a checkpoint");
          p.connStart = p.hist.size();
          break;
        }
        case 1: {  // the receiver's thread is in error: another sender thread gets the checkpoint
          Checkpoint k = visible(w, p);
          note(p, "global " + show(k));
          p.h->markNotInUse();
          for (int r = c.range(1, 2); r > 0; r--) ctl.handleGlobalCheckpoint(k);
          PBT_CHECK(c, p.h->isGlobalCheckpointReceived(), "good global checkpoint refused: " << show(k) << " after " << (p.haveLast ? show(p.last) : std::string("none")));
          accept(p, k);
          p.finished = true;
          globals++;
          break;
        }
        case 2: {  // partial progress of some other block: ignored
          Checkpoint k = visible(w, p);
          if (k.hasSeqId && p.received < (int64_t)p.hist.size()) {
            auto& b = p.hist[p.received];
            if (c.flip()) k.setLastBlockDetails(b.seq + 1000 + c.range(1, 500), b.off, c.logRange(1, 1 << 20));
            else k.setLastBlockDetails(b.seq, b.off + 1000000 + c.range(1, 500), c.logRange(1, 1 << 20));
            bool sameAsLast = p.haveLast && p.last.numBlocks == k.numBlocks && p.last.lastBlockReceivedBytes > 0 && p.last.lastBlockSeqId == k.lastBlockSeqId && p.last.lastBlockOffset == k.lastBlockOffset;
            if (sameAsLast) k.lastBlockReceivedBytes = p.last.lastBlockReceivedBytes;
          }
          ErrorCode e = p.h->setLocalCheckpoint(k);
          note(p, "other block " + show(k) + " -> " + std::to_string(e));
          PBT_CHECK(c, e == OK || e == NO_PROGRESS, "checkpoint refused (" << e << "): " << show(k));
          accept(p, k);
          p.details.resetLastBlockDetails();
          p.connStart = p.hist.size();
          break;
        }
        default:  // never heard of again
          note(p, "gone");
          p.finished = true;
      }
    }
  }
  if (breaks) c.label("broken connection");
  if (lied) c.label("lie");
  if (globals) c.label("global checkpoint");
  if (total(partial)) c.label("partial block accounted");
  if (breaks + globals >= 2) c.nontrivial();
  // end of the transfer
  bool versionMismatch = c.chance(1, 10);
  int64_t anyAcked = 0;
  for (auto& p : ports) anyAcked += p.h->getNumAcked() > 0;
  if (versionMismatch) {
    ErrorCode e = ctl.handleVersionMismatch();
    c.note([&] { return "version mismatch -> " + std::to_string(e); });
    PBT_EQ(c, (int)e, anyAcked ? (int)ERROR : (int)OK, "version mismatch with " << anyAcked << " ports with acknowledged blocks");
    if (e != OK) return;  // the transfer has failed
    {
      c.label("version mismatch");
      for (auto& p : ports) p.hist.resize(0);
    }
  }
  bool everything = true;
  for (auto& p : ports) everything &= (int64_t)p.hist.size() == p.reported;
  bool success = c.flip();
  for (auto& p : ports) {
    if (success) {
      // the receiver confirms: all blocks still in the history have arrived
      for (auto& b : p.hist) if (!b.ok) success = false;
    }
  }
  c.note([&] { return success ? "all acknowledged" : "failed: unacknowledged returned"; });
  for (auto& p : ports) {
    if (success) {
      p.h->markAllAcknowledged();
      PBT_EQ(c, p.h->getNumAcked(), (int64_t)p.hist.size(), "acknowledged after markAllAcknowledged");
    } else {
      p.h->returnUnackedSourcesToQueue();
      p.hist.resize(std::min<size_t>(p.hist.size(), p.reported));
      PBT_EQ(c, p.h->getNumAcked(), (int64_t)p.hist.size(), "acknowledged after returning the rest");
    }
  }
  finalChecks(c, w, q, ctx, ports, partial, total(partial));
}

// threads: every port has its own thread, global checkpoints arrive from other threads
void concurrent(Case& c) {
  World w = genWorld(c);
  if (w.mode == OLD16 && c.flip()) w.mode = MODERN;
  WdtOptions o;
  DirectorySourceQueue q(o, w.root, &noAbort);
  q.setBlockSizeMbytes(w.blockMb);
  int np = c.range(2, 4);
  q.setNumClientThreads(np);
  PBT_CHECK(c, q.buildQueueSynchronously(), "build failed");
  TransferHistoryController ctl(q);
  std::vector<Port> ports(np);
  struct Plan { uint64_t seed; int failPct, lazy; bool dies; };
  std::vector<Plan> plan;
  for (int i = 0; i < np; i++) {
    ports[i].port = 1000 + i;
    ports[i].stats = std::make_unique<TransferStats>(true);
    ctl.addThreadHistory(ports[i].port, *ports[i].stats);
    ports[i].h = &ctl.getTransferHistory(ports[i].port);
    plan.push_back({c.draw(~0ULL), (int)c.range(0, 40), (int)c.range(0, 200), i + 1 < np && c.chance(2, 3)});
  }
  c.note([&] { return show(w) + " threads " + std::to_string(np); });
  struct Result { std::vector<std::string> err; Ledger partial; Sent extra; bool haveExtra{false}; int globals{0}; };
  std::vector<Result> res(np);
  std::vector<std::thread> ts;
  for (int i = 0; i < np; i++) {
    ts.emplace_back([&, i] {
      pbt::Rng r(plan[i].seed);
      Port& p = ports[i];
      Result& R = res[i];
      ThreadCtx ctx(o, true, i);
      ctx.setAbortChecker(&noAbort);
      auto nap = [&] { if (plan[i].lazy && r.below(4) == 0) usleep(r.below(plan[i].lazy)); };
      bool dying = false;
      Checkpoint k;
      std::thread teller;
      int sent = 0;
      while (true) {
        nap();
        ErrorCode st;
        auto s = q.getNextSource(&ctx, st);
        if (!s) {
          // receiver confirms everything on this connection (only if it is alive)
          break;
        }
        bool fail = !dying && (int)r.below(100) < plan[i].failPct && sent < 200;
        int64_t size = s->getSize();
        int64_t written = fail ? (int64_t)r.below(size + 1) : size;
        if (fail && written == size && size) written--;
        Sent d = simulateSend(s, !fail, written, true, *p.stats, 20);
        sent++;
        nap();
        if (!p.h->addSource(s)) {
          if (!dying) R.err.push_back("source refused without a global checkpoint");
          R.extra = d;
          R.haveExtra = true;
          break;
        }
        p.hist.push_back(d);
        if (dying) {
          if (p.hist.size() > p.connStart + 300) break;
          continue;
        }
        bool die = plan[i].dies && r.below(6) == 0;
        if (!fail && !die) continue;
        // the connection is gone: what arrived?
        size_t n = p.hist.size() - p.connStart, okb = 0;
        while (okb < n && p.hist[p.connStart + okb].ok) okb++;
        size_t got = r.below(okb + 1);
        p.received += got;
        p.details.resetLastBlockDetails();
        if (got < n) {
          auto& b = p.hist[p.connStart + got];
          int64_t most = b.ok ? b.size - 1 : b.written;
          if (most > 0) p.details.setLastBlockDetails(b.seq, b.off, r.below(most + 1));
        }
        k = visible(w, p);
        if (die) {
          dying = true;
          teller = std::thread([&ctl, &p, k, &r, u = r.below(300)] {
            usleep(u);
            ctl.handleGlobalCheckpoint(k);
          });
          if (r.below(3) == 0) break;  // notices at once and stops
          continue;
        }
        ErrorCode e = p.h->setLocalCheckpoint(k);
        if (e != OK && e != NO_PROGRESS) R.err.push_back("good checkpoint refused: " + show(k));
        p.last = k;
        applyMirror(w, k, p.hist, R.partial);
        p.connStart = p.hist.size();
      }
      p.h->markNotInUse();
      if (teller.joinable()) teller.join();
      if (dying) {
        R.globals++;
        if (!p.h->isGlobalCheckpointReceived()) R.err.push_back("global checkpoint refused: " + show(k));
        std::vector<Sent> h = p.hist;
        if (R.haveExtra) h.push_back(R.extra);
        applyMirror(w, k, h, R.partial);
        if ((int64_t)p.hist.size() > k.numBlocks) p.hist.resize(k.numBlocks);
      }
    });
  }
  for (auto& t : ts) t.join();
  Ledger partial;
  int g = 0;
  for (auto& r : res) {
    for (auto& e : r.err) c.fail(e);
    for (auto& x : r.partial) for (auto& y : x.second) partial[x.first].push_back(y);
    g += r.globals;
  }
  if (g) { c.label("global checkpoint"); c.nontrivial(); }
  for (auto& p : ports) p.h->markAllAcknowledged();
  ThreadCtx ctx(o, true, 0);
  ctx.setAbortChecker(&noAbort);
  finalChecks(c, w, q, ctx, ports, partial, total(partial));
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Sub a{"scripted", scripted, 40000, 600000};
  a.rule = "at least two broken connections or global checkpoints";
  pbt::Sub b{"threads", concurrent, 5000, 60000};
  b.concurrent = true;
  b.rule = "a global checkpoint arrived from another thread";
  return pbt::main(argc, argv, "C11", {a, b});
}
