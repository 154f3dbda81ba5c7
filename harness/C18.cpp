// variant: asan
// libs: core
// workers: 32
// An interrupted transfer resumes without resending or losing data.
#include "common_e2e.h"
using namespace e2e;
using pbt::Case;

// One source file over time.  Every generation has contents of its own; within a
// generation only the length changes.  A new generation is always shorter than all
// earlier ones ever were at any time: resumption goes by names and sizes, so a change that
// keeps the size cannot be seen.
struct Hist {
  std::string name, data;
  size_t limit{0};  // lengths stay below this
  size_t len{0}, least{SIZE_MAX};
  bool present{true};
};
struct World {
  std::vector<Hist> files;
  bool changed{false};
  Tree tree() const { Tree t; for (auto& f : files) if (f.present) t[f.name] = f.data.substr(0, f.len); return t; }
};
static Hist newFile(Case& c, const std::string& name, size_t block, size_t maxSize, size_t buf) {
  Hist h;
  h.name = name;
  h.len = genSize(c, block, buf, maxSize);
  h.least = h.len;
  h.limit = h.len + c.logRange(0, maxSize);
  h.data = genContent(c, h.limit, false);
  return h;
}
static World genWorld(Case& c, const Cfg& f) {
  World w;
  TreeOpts to;
  to.block = f.blockBytes();
  to.buf = f.bufSize;
  to.maxFiles = 7;
  to.maxSize = 120000;
  to.maxTotal = 300000;
  Tree t = genTree(c, to);
  if (t.empty()) t["only"] = genContent(c, c.logRange(0, 100000), false);
  for (auto& e : t) {
    Hist h;
    h.name = e.first;
    h.len = e.second.size();
    h.least = h.len;
    h.limit = h.len + c.logRange(0, 60000);
    h.data = e.second + genContent(c, h.limit - h.len, false);
    w.files.push_back(h);
  }
  return w;
}
static std::string mutate(Case& c, World& w, const std::string& src, const std::string& dst, bool dirTree, int& fresh, const Cfg& f) {
  std::ostringstream o;
  for (int k = (int)c.range(1, 3); k > 0; k--) {
    if (w.files.empty() || c.chance(1, 5)) {
      w.files.push_back(newFile(c, "new" + std::to_string(fresh++), f.blockBytes(), 60000, 1000));
      o << " add " << w.files.back().name << ":" << w.files.back().len;
      w.changed = true;
      continue;
    }
    Hist& h = w.files[c.draw(w.files.size() - 1)];
    switch (c.draw(4)) {
      case 0:  // append
        if (!h.present || h.len >= h.limit) continue;
        h.len += c.logRange(1, h.limit - h.len);
        o << " grow " << pbt::show(h.name, 30) << " to " << h.len;
        break;
      case 1:  // shorter, other contents
        h.least = std::min(h.least, h.len);
        if (!h.present || h.least == 0) continue;
        if (dirTree) {
          // without preallocation only the size of what was received is known
          struct stat st;
          if (stat((dst + "/" + h.name).c_str(), &st) == 0) {
            if (st.st_size == 0) continue;
            h.least = std::min(h.least, (size_t)st.st_size);
          }
        }
        h.limit = h.least - 1;
        h.len = c.flip() ? h.limit : c.draw(h.limit);
        h.data = genContent(c, h.limit, false);
        o << " rewrite " << pbt::show(h.name, 30) << " with " << h.len;
        break;
      case 2:  // shorter, same contents
        if (!h.present || h.len == 0) continue;
        h.len -= c.logRange(1, h.len);
        o << " cut " << pbt::show(h.name, 30) << " to " << h.len;
        break;
      default:
        h.present = !h.present;
        o << (h.present ? " put back " : " remove ") << pbt::show(h.name, 30);
    }
    h.least = std::min(h.least, h.len);
    w.changed = true;
  }
  for (auto& h : w.files) {
    std::string p = src + "/" + h.name;
    struct stat st;
    bool there = lstat(p.c_str(), &st) == 0;
    if (!h.present) { if (there) unlink(p.c_str()); }
    else writeFile(p, h.data.substr(0, h.len));
  }
  return o.str();
}

struct Mode {
  bool dirTree{false}, del{false}, overwrite{true}, noPrealloc{false};
};
static void genAttempt(Case& c, Cfg& f, const Mode& m, bool last) {
  f = Cfg();
  genTransport(c, f, 4);
  f.fsync = c.chance(1, 4);
  f.openFiles = 0;
  if (c.flip()) f.checksum = true;
  f.resume = true;
  f.dirTree = m.dirTree;
  f.noPrealloc = m.dirTree || m.noPrealloc;
  if (m.dirTree) f.blockMb = 0;
  f.deleteExtra = m.del;
  f.overwrite = m.overwrite;
  f.logIntervalMs = (int)c.pick<int>({1, 20, 100, 300});
  f.compaction = c.chance(1, 3);
  if (c.chance(1, 5)) f.sVer = f.rVer = (int)c.range(m.del ? 26 : 21, 32);
  f.drainMs = 50;
  if (last) {
    f.readTimeout = f.writeTimeout = 8000;
    f.acceptWindow = 10000;
  } else {
    f.readTimeout = 300 + (int)c.draw(300);
    f.writeTimeout = f.readTimeout;
    f.acceptWindow = 1000;
    f.connectTimeout = 500;
    f.abortCheck = 20;
    f.maxTransferRetries = 1;
    f.maxRetries = 3;
    if (c.chance(1, 3)) f.avgMb = 0.3 + (double)c.draw(30) / 10;
  }
}
struct Outcome {
  Rep s, r;
  std::string what;
};
// one attempt; `kind` tells how it is disturbed
static Outcome attempt(Case& c, Session& x, const Tree& src, int kind) {
  Outcome o;
  int64_t total = totalSize(src), share = total / x.cfg.ports + 200;
  int64_t at = c.chance(1, 4) ? (int64_t)c.range(0, 400) : (int64_t)c.draw((uint64_t)total + 300);
  std::ostringstream w;
  static const char* kinds[] = {"undisturbed", "sender aborted", "receiver aborted", "both aborted", "connections lost", "sender aborted later", "receiver aborted later"};
  w << kinds[kind];
  if (kind == 4) {
    for (int i = 0; i < x.cfg.ports; i++) {
      PortPlan p;
      Fault f;
      f.act = c.pick<Act>({CUT, RST, HOLE});
      f.dir = c.chance(1, 4);
      f.after = f.dir ? c.range(0, 200) : (c.flip() ? c.draw(share) : c.range(0, 300));
      p.conns.push_back(f);
      p.refuseAfter = true;
      x.plan.push_back(p);
      w << " " << p.show();
    }
  } else if (kind && kind < 4) {
    x.plan.resize(x.cfg.ports);
    w << " at byte " << at;
  }
  int ms = kind > 4 ? (int)c.logRange(0, 400) : 0;
  if (kind > 4) w << " after " << ms << " ms";
  o.what = w.str();
  ErrorCode e = x.startReceiver();
  PBT_EQ(c, (int)e, (int)OK, "receiver start failed: " << x.cfg.show());
  // the forwarders are made by startSender; the abort may happen while it runs
  std::atomic<bool> ready{false}, due{false};
  std::atomic<int64_t> passed{0};
  bool abS = kind == 1 || kind == 3 || kind == 5, abR = kind == 2 || kind == 3 || kind == 6;
  e = x.startSender();
  PBT_EQ(c, (int)e, (int)OK, "sender start failed: " << x.cfg.show());
  std::atomic<bool> stop{false};
  std::thread th([&] {
    if (!abS && !abR) return;
    double t0 = now();
    while (!stop) {
      bool go;
      if (kind > 4) go = now() - t0 >= ms / 1000.0;
      else {
        int64_t n = 0;
        for (auto& f : x.fwd) n += f->bytes[0];
        go = n >= at;
      }
      if (go) {
        if (abS) x.sender->abort(ABORTED_BY_APPLICATION);
        if (abR) x.receiver->abort(ABORTED_BY_APPLICATION);
        return;
      }
      usleep(200);
    }
  });
  x.finishSender();
  if (kind != 2 && kind != 6) stop = true;
  if ((kind == 1 || kind == 4 || kind == 5) && c.chance(3, 4)) {
    usleep(20000);
    x.receiver->abort(ABORTED_BY_APPLICATION);  // nobody will come back
  }
  x.finishReceiver();
  stop = true;
  th.join();
  o.s = x.s;
  o.r = x.r;
  return o;
}

static void history(Case& c, bool dirTree, bool change, bool mixed) {
  std::string base = c.scratch(), src = base + "/src", dst = base + "/dst", rid = "rec";
  Mode m;
  m.dirTree = dirTree;
  m.del = c.chance(1, 3);
  m.noPrealloc = c.chance(1, 3);
  m.overwrite = mixed || c.flip();
  Cfg f0;
  f0.blockMb = dirTree ? 0 : (double)c.logRange(200, 30000) / 1048576;
  World w = genWorld(c, f0);
  writeTree(src, w.tree());
  int n = (int)c.range(1, 4), fresh = 0;
  std::ostringstream log;
  std::string tid = c.chance(1, 5) ? std::string(c.range(1, 1000), 'i') : "vt";  // settings longer than the least message
  int64_t recorded = 0;  // bytes the receiver says it has so far (unchanged source only)
  bool comparable = true;
  std::set<std::string> ever, suspect;
  std::map<std::string, std::pair<size_t, size_t>> have;
  for (int i = 0; i <= n; i++) {
    bool last = i == n;
    if (i && change && c.chance(2, 3)) log << "source:" << mutate(c, w, src, dst, m.dirTree || m.noPrealloc || mixed, fresh, f0) << "\n";
    Tree t = w.tree();
    int64_t known = 0;  // of the files a successful attempt left complete, what is still good
    for (auto& h : w.files) {
      auto it = have.find(h.name);
      if (it == have.end()) continue;
      if ((!h.present && m.del) || (h.present && h.len < it->second.second)) { have.erase(it); continue; }
      if (!h.present) continue;
      known += it->second.first;
      it->second.second = h.len;  // the receiver may have made it that long
    }
    for (auto& e : t) ever.insert(e.first);
    Session x;
    x.transferId = tid;
    genAttempt(c, x.cfg, m, last);
    boundBlocks(x.cfg, t, 250);
    x.src = src;
    x.dst = dst;
    x.recoveryId = rid;
    if (mixed && c.chance(1, 5)) {  // somebody else sends an empty directory
      x.src = base + "/none";
      mkdirs(x.src);
      t.clear();
      comparable = false;
    }
    bool plainSender = false;
    if (mixed) {
      // the recovery id, the mode or the sender's resumption changes: nothing may be reused wrongly
      switch (c.draw(last ? 4 : 5)) {
        case 0: m.dirTree = !m.dirTree; comparable = false; break;
        case 1: rid += "x"; comparable = false; break;
        case 2: if (!x.cfg.dirTree) { x.cfg.noPrealloc = !x.cfg.noPrealloc; comparable = false; } break;
        case 3: if (x.cfg.dirTree) { x.cfg.blockMb = (double)c.logRange(500, 30000) / 1048576; comparable = false; } break;
        case 4: plainSender = true; comparable = false; break;
        default: break;
      }
      if (c.chance(1, 4)) { plainSender = true; comparable = false; }
      x.recoveryId = rid;
      x.cfg.dirTree = m.dirTree;
      if (m.dirTree) x.cfg.noPrealloc = true;
      if (plainSender) {
        x.tweakRequest = [](WdtTransferRequest& q) { q.downloadResumptionEnabled = false; };
        x.tweakOptions = [](WdtOptions& q, bool sender) { if (sender) q.enable_download_resumption = false; };
      }
    }
    int kind = last ? 0 : (int)c.weighted({1, 3, 3, 3, 4, 1, 1});
    Outcome o;
    log << "#" << i << (tid.size() > 2 ? " id of " + std::to_string(tid.size()) : "") << " " << x.cfg.show() << (plainSender ? " sender without resumption" : "") << (mixed ? " id " + rid : "") << "\n";
    std::string files = showTree(t);
    c.note([&] { return log.str() + "files: " + files; });
    o = attempt(c, x, t, kind);
    log << "   " << o.what << " -> sender " << o.s.show() << "; receiver " << o.r.show() << "\n";
    Tree got = readTree(dst);
    std::string hist = "\n" + log.str();
    bool extra = !m.del || mixed || plainSender;
    if (o.s.ok()) {
      Tree g2;
      for (auto& e : got) if (t.count(e.first) || !ever.count(e.first) || !extra) g2.insert(e);
      auto d = diffTrees(t, g2);
      if (!d.empty() && !suspect.empty()) {
        Tree t2, g3;
        for (auto& e : t) if (!suspect.count(e.first)) t2.insert(e);
        for (auto& e : g2) if (!suspect.count(e.first)) g3.insert(e);
        if (diffTrees(t2, g3).empty() && c.known("tree-validated-by-a-later-success")) return;
      }
      PBT_CHECK(c, d.empty(), "attempt " << i << " reports success but the destination has " << d << hist);
      // what this attempt did not send may be left from an attempt that cannot be resumed
      if (m.dirTree && !comparable) for (auto& e : got) if (!t.count(e.first)) suspect.insert(e.first);
      for (auto& e : t) suspect.erase(e.first);
      if (!plainSender) PBT_EQ(c, o.s.prevSent + o.s.effBytes, totalSize(t), "bytes known before plus bytes sent by attempt " << i << hist);
      c.label(last ? "final success" : "early success");
    } else {
      c.label(std::string("interrupted: ") + (kind == 4 ? "connections" : kind ? "abort" : "none"));
      if (o.r.effBytes > 0 || recorded > 0) { c.label("interrupted with data received"); c.nontrivial(); }
    }
    if (last) {
      PBT_CHECK(c, o.s.ok() && o.r.ok(), "the undisturbed last attempt failed" << hist);
      if (o.s.prevSent > 0) c.label("something was not sent again");
    }
    if (kind == 0 && !last) PBT_CHECK(c, o.s.ok() || o.s.code != OK, "no status" << hist);
    // received bytes are never sent again
    if (comparable && !w.changed) {
      if (last || o.s.prevSent > 0 || o.s.ok()) {
        PBT_CHECK(c, o.s.prevSent >= recorded, "bytes known before attempt " << i << " are " << o.s.prevSent << " although " << recorded << " had been received" << hist);
      }
      recorded = std::max(recorded, o.s.prevSent) + std::max(o.r.effBytes, (int64_t)0);
      if (o.r.effBytes > 0 && !last) c.label("lower bound known");
    }
    if (comparable && (last || o.s.prevSent > 0 || o.s.ok())) {
      PBT_CHECK(c, o.s.prevSent >= known, "bytes known before attempt " << i << " are " << o.s.prevSent << " although files with " << known << " bytes were complete" << hist);
      if (known && w.changed) c.label("complete files known");
    }
    if (comparable && o.s.ok()) for (auto& e : t) have[e.first] = {e.second.size(), e.second.size()};
    auto d = diffTrees(t, readTree(x.src));
    PBT_CHECK(c, d.empty(), "the source was changed: " << d << hist);
  }
}
static void logBased(Case& c) { history(c, false, false, false); }
static void dirTree(Case& c) { history(c, true, false, false); }
static void logChanging(Case& c) { history(c, false, true, false); }
static void dirChanging(Case& c) { history(c, true, true, false); }
static void switching(Case& c) { history(c, c.flip(), c.flip(), true); }

// a directory spoilt by an interrupted block-mode attempt, another successful
// attempt without the interrupted files, then those again
static void putBack(Case& c) {
  std::string base = c.scratch();
  Tree t;
  for (int i = (int)c.range(1, 3); i > 0; i--) t["f" + std::to_string(i)] = genContent(c, c.range(20000, 60000), false);
  c.note([&] { return showTree(t); });
  writeTree(base + "/src", t);
  mkdirs(base + "/none");
  std::string what;
  for (int i = 0; i < 3; i++) {
    Session x;
    genAttempt(c, x.cfg, Mode{true, false, true}, i > 0);
    if (i == 0) x.cfg.blockMb = (double)c.range(500, 3000) / 1048576;
    x.src = base + (i == 1 ? "/none" : "/src");
    x.dst = base + "/dst";
    x.recoveryId = "r";
    auto o = attempt(c, x, i == 1 ? Tree() : t, i == 0 ? 3 : 0);
    what += "\n" + o.what + " -> sender " + o.s.show() + "; receiver " + o.r.show();
    if (i == 0 && o.s.ok()) return;
    if (i) PBT_CHECK(c, o.s.ok() && o.r.ok(), "undisturbed attempt failed" << what);
    if (i == 2) {
      c.nontrivial();
      auto d = diffTrees(t, readTree(x.dst));
      if (!d.empty() && c.known("tree-validated-by-a-later-success")) return;
      PBT_CHECK(c, d.empty(), "the destination has " << d << what);
    }
  }
}

int main(int argc, char** argv) {
  const char* rule = "an attempt was interrupted after data had been received";
  return pbt::main(argc, argv, "C18",
                   {
                       {"log", logBased, 200, 4000, 120, true, rule},
                       {"tree", dirTree, 150, 3000, 120, true, rule},
                       {"log_changing", logChanging, 200, 4000, 120, true, rule},
                       {"tree_changing", dirChanging, 150, 3000, 120, true, rule},
                       {"switching", switching, 200, 4000, 120, true, rule},
                       {"put_back", putBack, 24, 100, 120, true, "the interrupted files were sent again"},
                   });
}
