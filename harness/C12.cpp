// variant: asan
// libs: core
// extra: common_proc.cpp
// C12: the transfer log restores exactly what was durably received.
#include <thread>
#include "common_log.h"
using namespace tl;
namespace {
void genOpt(Case& c, WdtOptions& o) {
  allowHugeFiles();
  o.enable_download_resumption = true;
  o.disable_preallocation = c.flip();
  o.transfer_log_write_interval_ms = c.pick({100, 0, 1, 5});
  o.disable_sender_verification_during_resumption = c.chance(1, 4);
}
std::string show(const std::vector<E>& v) {
  std::string r;
  for (auto& e : v) r += "\n    " + str(e);
  return r;
}
// After a read: files the model found missing are written off.
void writeOff(std::vector<E>& es, const State& s) {
  if (s.status == INCONSISTENT_DIRECTORY) { E d; d.t = DIRINV; es.push_back(d); }
  for (int64_t q : s.invalid) { E e; e.t = INVAL; e.seq = q; es.push_back(e); }
}
void sessions(Case& c) {
  std::string root = c.scratch() + "/r";
  mkdir(root.c_str(), 0755);
  WdtOptions o;
  genOpt(c, o);
  bool pre = o.shouldPreallocateFiles();
  std::string rid = c.pick<std::string>({"rid", "", "another id", "x"}), ip = c.pick<std::string>({"::1", "10.0.0.1"});
  int64_t cfg = config(o);
  std::string log = root + "/" + kWdtLogName;
  Gen g(c, root, pre);
  g.big = true;
  std::vector<E> es;
  int ns = (int)c.range(1, 5);
  bool restored = false, crashed = false;
  c.note([&] { return std::string(pre ? "preallocating" : "not preallocating") + " interval " + std::to_string(o.transfer_log_write_interval_ms) + " recovery id '" + rid + "'"; });
  for (int k = 0; k <= ns; k++) {
    bool last = k == ns;
    // between sessions files may disappear and come back, grow or be read by the print tool
    if (k) {
      for (int i = 0, n = (int)c.weighted({6, 2, 1}); i < n && !g.live.empty(); i++) {
        int64_t q = g.pickSeq();
        if (c.flip()) {
          c.note([&] { return "  " + g.live[q].name + " disappears"; });
          ::unlink((root + "/" + g.live[q].name).c_str());
          c.label("file lost");
        } else {
          int64_t d = diskSize(root, g.live[q].name);
          if (d >= 0) { c.note([&] { return "  " + g.live[q].name + " grows"; }); setSize(root, g.live[q].name, d + c.logRange(1, 5000)); }
        }
      }
    }
    State want = eval(es, es.size(), root, rid, cfg, pre);
    // every session sees it; reading several times, or only printing, changes nothing
    int reads = (int)c.range(1, 3);
    for (int r = 0; r + 1 < reads; r++) {
      Log m(o, root);
      PBT_EQ(c, m.openLog(), OK, "opening the log");
      if (c.flip()) {
        std::streambuf* old = std::cout.rdbuf();
        std::ostringstream sink;
        std::cout.rdbuf(sink.rdbuf());
        bool ok = m.parseAndPrint();
        std::cout.rdbuf(old);
        PBT_CHECK(c, ok, "a well formed log could not be printed");
      } else {
        std::vector<FileChunksInfo> v;
        ErrorCode e = m.parseAndMatch(rid, cfg, v);
        compare(c, want, e, v, "in session " + std::to_string(k) + " (extra read)");
        writeOff(es, want);
        want = eval(es, es.size(), root, rid, cfg, pre);
      }
      m.closeLog();
    }
    Log m(o, root);
    PBT_EQ(c, m.openLog(), OK, "opening the log");
    if (c.chance(1, 6)) {
      Log m2(o, root);
      PBT_EQ(c, m2.openLog(), TRANSFER_LOG_ACQUIRE_ERROR, "a log in use was opened again");
    }
    std::vector<FileChunksInfo> v;
    ErrorCode e = m.parseAndMatch(rid, cfg, v);
    c.note([&] { return "  all entries:" + show(es); });
    compare(c, want, e, v, "in session " + std::to_string(k));
    c.note([&] { return "  read: model has " + std::to_string(es.size()) + " entries"; });
    for (auto& p : want.files) if (!p.second.blocks.empty()) restored = true;
    writeOff(es, want);
    if (last) { m.closeLog(); break; }
    // what the receiver still knows
    g.live.clear();
    for (auto& p : want.files) {
      g.live[p.first] = {p.second.name, p.second.logged};
      g.freed.erase(std::remove(g.freed.begin(), g.freed.end(), p.first), g.freed.end());
    }
    PBT_EQ(c, m.startThread(), OK, "starting the log");
    PBT_CHECK(c, m.verifySenderIp(ip), "the sender's own log was not accepted");
    if (c.chance(1, 12)) {  // ends before anything was received
      c.note([&] { return "session " + std::to_string(k) + ": nothing"; });
      m.closeLog();
      continue;
    }
    bool inval = k && c.chance(1, 8);
    if (inval) { m.invalidateDirectory(); E d; d.t = DIRINV; es.push_back(d); g.live.clear(); c.label("invalidated directory"); }
    m.writeLogHeader();
    E h; h.t = HDR; h.s = rid; h.ip = ip; h.a = cfg;
    es.push_back(h);
    size_t from = es.size();
    int n = (int)c.logRange(0, c.chance(1, 10) ? 300 : 30);
    for (int i = 0; i < n; i++) {
      E x = g.next();
      add(m, x);
      es.push_back(x);
      if (o.transfer_log_write_interval_ms < 100 && c.chance(1, 10)) std::this_thread::yield();
    }
    bool compact = c.chance(1, 5);
    c.note([&] { return "session " + std::to_string(k) + (inval ? " (invalidated first)" : "") + ":" + show(std::vector<E>(es.begin() + from, es.end())) + (compact ? "\n    compacted" : ""); });
    if (compact) {
      State before = eval(es, es.size(), root, rid, cfg, pre);
      m.compactLog();
      m.closeLog();
      Log m2(o, root);
      PBT_EQ(c, m2.openLog(), OK, "opening the compacted log");
      std::vector<FileChunksInfo> w;
      ErrorCode e2 = m2.parseAndMatch(rid, cfg, w);
      m2.closeLog();
      compare(c, before, e2, w, "after compaction");
      bool whole = true;
      for (auto& p : before.files) {
        Iv b = normal(p.second.blocks);
        whole &= b.size() == 1 && b[0].first == 0 && b[0].second == p.second.disk;
      }
      writeOff(es, before);
      size_t fr = frames(readAll(log)).size();
      if (whole && !before.files.empty()) {
        PBT_EQ(c, fr, 1 + 2 * before.files.size(), "entries of a compacted log");
        c.label("compacted");
      }
      // the model follows whatever is now in the log
      if (fr != es.size()) {
        std::vector<E> ne;
        ne.push_back(h);
        for (auto& p : before.files) {
          E a; a.t = CREATE; a.seq = p.first; a.s = p.second.name; a.a = p.second.disk; ne.push_back(a);
          E b; b.t = BLOCK; b.seq = p.first; b.a = 0; b.b = p.second.disk; ne.push_back(b);
        }
        PBT_EQ(c, fr, ne.size(), "entries after compaction (was " << es.size() << ")");
        es = ne;
      }
      continue;
    }
    m.closeLog();
    std::string d = readAll(log);
    auto fr = frames(d);
    PBT_EQ(c, fr.size(), es.size(), "complete entries in the log");
    PBT_EQ(c, fr.empty() ? 0 : fr.back().second, d.size(), "bytes after the last entry");
    if (c.chance(1, 2)) {  // crash: the end of the log never reached the disk
      size_t cut = c.flip() ? c.range(0, d.size()) : d.size() - std::min<size_t>(d.size(), c.logRange(0, 60));
      PBT_EQ(c, truncate(log.c_str(), cut), 0, "");
      size_t keep = 0;
      while (keep < fr.size() && fr[keep].second <= cut) keep++;
      c.note([&] { return "  cut to " + std::to_string(cut) + " of " + std::to_string(d.size()) + " bytes, " + std::to_string(keep) + " of " + std::to_string(es.size()) + " entries left"; });
      crashed |= cut < d.size();
      es.resize(keep);
    }
  }
  if (restored) c.nontrivial();
  if (crashed) c.label("crash");
}
// every byte position of one log
void cuts(Case& c) {
  std::string root = c.scratch() + "/r";
  mkdir(root.c_str(), 0755);
  WdtOptions o;
  genOpt(c, o);
  o.transfer_log_write_interval_ms = 100;
  bool pre = o.shouldPreallocateFiles();
  int64_t cfg = config(o);
  Gen g(c, root, pre);
  std::vector<E> es;
  std::string log = root + "/" + kWdtLogName;
  {
    Log m(o, root);
    PBT_EQ(c, m.openLog(), OK, "");
    std::vector<FileChunksInfo> v;
    PBT_EQ(c, m.parseAndMatch("id", cfg, v), OK, "");
    PBT_EQ(c, m.startThread(), OK, "");
    m.verifySenderIp("1.2.3.4");
    m.writeLogHeader();
    E h; h.t = HDR; h.s = "id"; h.ip = "1.2.3.4"; h.a = cfg;
    es.push_back(h);
    for (int i = 0, n = (int)c.range(1, 8); i < n; i++) { es.push_back(g.next()); add(m, es.back()); }
    m.closeLog();
  }
  c.note([&] { return show(es); });
  std::string d = readAll(log);
  auto fr = frames(d);
  PBT_EQ(c, fr.size(), es.size(), "entries");
  for (size_t cut = 0; cut <= d.size(); cut++) {
    writeAll(log, d.substr(0, cut));
    size_t keep = 0;
    while (keep < fr.size() && fr[keep].second <= cut) keep++;
    for (int again = 0; again < 2; again++) {
      Log m(o, root);
      PBT_EQ(c, m.openLog(), OK, "");
      std::vector<FileChunksInfo> v;
      ErrorCode e = m.parseAndMatch("id", cfg, v);
      compare(c, eval(es, keep, root, "id", cfg, pre), e, v, "cut to " + std::to_string(cut) + " bytes" + (again ? ", second time" : ""));
      m.closeLog();
    }
    std::string now = readAll(log);
    // reading appends that files which are not there as logged are written off
    size_t kept = keep ? fr[keep - 1].second : 0, off = eval(es, keep, root, "id", cfg, pre).invalid.size();
    std::string rest = now.size() >= kept ? now.substr(kept) : "";
    auto rf = frames(rest);
    PBT_CHECK(c, now.size() >= kept && now.compare(0, kept, d, 0, kept) == 0 && rf.size() == off && (rf.empty() ? rest.empty() : rf.back().second == rest.size()), "the partial entry was not removed: cut " << cut << " now " << now.size() << " with " << rf.size() << " entries appended, expected " << off);
  }
  if (es.size() > 2) c.nontrivial();
}
// several receiver threads log at once
void concurrent(Case& c) {
  std::string root = c.scratch() + "/r";
  mkdir(root.c_str(), 0755);
  WdtOptions o;
  genOpt(c, o);
  bool pre = o.shouldPreallocateFiles();
  int64_t cfg = config(o);
  int nt = (int)c.range(2, 6), ns = (int)c.range(1, 3);
  std::vector<std::unique_ptr<Gen>> gs;
  for (int t = 0; t < nt; t++) {
    gs.emplace_back(new Gen(c, root, pre));
    gs[t]->nextSeq = t * 10000000;
    gs[t]->names = t * 100000;
  }
  State want;
  std::vector<E> all;
  for (int k = 0; k <= ns; k++) {
    Log m(o, root);
    PBT_EQ(c, m.openLog(), OK, "");
    std::vector<FileChunksInfo> v;
    ErrorCode e = m.parseAndMatch("id", cfg, v);
    compare(c, eval(all, all.size(), root, "id", cfg, pre), e, v, "in session " + std::to_string(k));
    if (k == ns) { m.closeLog(); break; }
    PBT_EQ(c, m.startThread(), OK, "");
    m.verifySenderIp("::1");
    m.writeLogHeader();
    E h; h.t = HDR; h.s = "id"; h.ip = "::1"; h.a = cfg;
    all.push_back(h);
    std::vector<std::vector<E>> plan(nt);
    for (int t = 0; t < nt; t++)
      for (int i = 0, n = (int)c.range(1, 40); i < n; i++) plan[t].push_back(gs[t]->next());
    std::vector<std::thread> th;
    std::atomic<int> ready{0};
    uint64_t sd = c.draw(1 << 20);
    for (int t = 0; t < nt; t++)
      th.emplace_back([&, t] {
        pbt::Rng r(sd + t);
        ready++;
        while (ready < nt) {}
        for (auto& x : plan[t]) {
          add(m, x);
          if (r.below(20) == 0) usleep(r.below(1500));
        }
      });
    for (auto& x : th) x.join();
    m.closeLog();
    for (auto& p : plan) all.insert(all.end(), p.begin(), p.end());
    PBT_EQ(c, frames(readAll(root + "/" + kWdtLogName)).size(), all.size(), "entries in the log");
  }
  c.nontrivial();
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::main(argc, argv, "C12",
                   {{"sessions", sessions, 24000, 400000, 60, true, "blocks of an earlier session were restored"},
                    {"cuts", cuts, 1500, 30000, 60, false, "the log has more than one entry after the header; it is cut at every byte"},
                    {"concurrent", concurrent, 4000, 60000, 60, true, "every case: several threads log at once"}});
}
