// variant: asan
// libs: core
// workers: 24
// Aborting a transfer stops it promptly with the abort reported.
#include "common_e2e.h"
#include <dirent.h>
#include <netinet/in.h>
using namespace e2e;
using pbt::Case;

// ---------------------------------------------------------------- leftovers
static std::set<std::string> listDir(const char* d) {
  std::set<std::string> r;
  DIR* x = opendir(d);
  if (!x) return r;
  int own = dirfd(x);
  while (auto* e = readdir(x))
    if (e->d_name[0] != '.' && e->d_name != std::to_string(own)) r.insert(e->d_name);
  closedir(x);
  return r;
}
struct Before {
  std::set<std::string> fds{listDir("/proc/self/fd")}, tasks{listDir("/proc/self/task")};
  void check(Case& c) {
    std::string left;
    for (int i = 0; i < 300; i++) {
      left.clear();
      for (auto& t : listDir("/proc/self/task")) if (!tasks.count(t)) left += " thread " + t;
      for (auto& f : listDir("/proc/self/fd")) if (!fds.count(f)) left += " descriptor " + f;
      if (left.empty()) return;
      msleep(10);
    }
    for (auto& f : listDir("/proc/self/fd")) if (!fds.count(f)) {
      char b[300];
      ssize_t n = readlink(("/proc/self/fd/" + f).c_str(), b, sizeof b);
      if (n > 0) left += " (" + f + " is " + std::string(b, n) + ")";
    }
    PBT_CHECK(c, false, "left behind when both sides were gone:" << left);
  }
};
struct FlagChecker : IAbortChecker {
  std::atomic<bool> on{false};
  bool shouldAbort() const override { return on; }
};

static double unit(Case& c) { return c.draw(1000000) / 1e6; }
// ---------------------------------------------------------------- codes
static const std::vector<ErrorCode> kCodes = {ERROR, ABORT, CONN_ERROR, VERSION_MISMATCH, ABORTED_BY_APPLICATION, PROTOCOL_ERROR, SOCKET_READ_ERROR, GLOBAL_CHECKPOINT_ABORT};
static void codes(Case& c) {
  std::unique_ptr<WdtBase> b;
  std::string dir = c.scratch();
  WdtTransferRequest rq(0, 1, dir + "/x");
  rq.hostName = "127.0.0.1";
  rq.protocolVersion = 32;
  if (c.flip()) b = std::make_unique<Sender>(rq); else b = std::make_unique<Receiver>(rq);
  std::shared_ptr<FlagChecker> ck;
  ErrorCode model = OK;
  std::ostringstream hist;
  bool vm = false, over = false;
  for (int k = (int)c.range(1, 25); k > 0; k--) {
    switch (c.weighted({6, 4, 2, 1, 1})) {
      case 0: {
        ErrorCode e = c.flip() ? VERSION_MISMATCH : c.pick(kCodes);
        hist << " abort(" << errorCodeToStr(e) << ")";
        b->abort(e);
        if (e == VERSION_MISMATCH) { if (model == OK) { model = e; vm = true; } else if (model != VERSION_MISMATCH) over = true; }
        else model = e;
        break;
      }
      case 1: hist << " clear"; b->clearAbort(); if (model == VERSION_MISMATCH) model = OK; break;
      case 2: if (ck) { ck->on = !ck->on; hist << " checker " << ck->on; } break;
      case 3: ck = std::make_shared<FlagChecker>(); b->setAbortChecker(ck); hist << " new checker"; break;
      default: {  // several at once: a stronger code always remains
        std::vector<ErrorCode> es;
        for (int i = (int)c.range(2, 4); i > 0; i--) es.push_back(c.flip() ? VERSION_MISMATCH : c.pick(kCodes));
        hist << " together{";
        for (auto e : es) hist << errorCodeToStr(e) << " ";
        hist << "}";
        std::vector<std::thread> th;
        std::atomic<int> go{0};
        for (auto e : es) th.emplace_back([&b, e, &go, &es] { go++; while (go < (int)es.size()) {} b->abort(e); });
        for (auto& t : th) t.join();
        if (ck) ck->on = false;
        ErrorCode now = b->getCurAbortCode();
        std::set<ErrorCode> strong;
        for (auto e : es) if (e != VERSION_MISMATCH) strong.insert(e);
        if (!strong.empty()) PBT_CHECK(c, strong.count(now), "abort code " << errorCodeToStr(now) << " after" << hist.str());
        else PBT_EQ(c, (int)now, (int)(model == OK ? VERSION_MISMATCH : model), "abort code after" << hist.str());
        model = now;
        break;
      }
    }
    ErrorCode want = ck && ck->on ? ABORTED_BY_APPLICATION : model;
    PBT_EQ(c, (int)b->getCurAbortCode(), (int)want, "abort code after" << hist.str());
  }
  if (vm && over) c.nontrivial();
  std::string h = hist.str();
  c.note([h] { return h; });
}

// ---------------------------------------------------------------- transfers
enum How { CALL, CHECKER, DESTROY };
static const char* howName(int h) { static const char* n[] = {"call", "checker", "destroy"}; return n[h]; }
static const double kPrompt = 5;   // an abort must end a side within this
struct Run {
  std::atomic<bool> hit{false};
  Session x;
  std::shared_ptr<FlagChecker> ck[2] = {std::make_shared<FlagChecker>(), std::make_shared<FlagChecker>()};
  ErrorCode abortCode{ABORTED_BY_APPLICATION};
  std::thread th[2];
  std::atomic<double> doneAt[2]{{0}, {0}};
  Run() {
    x.onCreated = [this](WdtBase& b, bool sender) { b.setAbortChecker(ck[sender]); };
  }
  WdtBase* base(int side) { return side ? (WdtBase*)x.sender.get() : (WdtBase*)x.receiver.get(); }
  void abort(int side, How how) {
    if (how == CALL) base(side)->abort(abortCode);
    else ck[side]->on = true;
  }
  void finisher(int side) {
    th[side] = std::thread([this, side] {
      if (side) x.finishSender(); else x.finishReceiver();
      doneAt[side] = now();
    });
  }
  void join() { for (auto& t : th) if (t.joinable()) t.join(); }
  ~Run() { for (int i = 0; i < 2; i++) ck[i]->on = true; join(); }
};
static Tree genSource(Case& c, Cfg& f) {
  TreeOpts to;
  to.block = f.blockBytes();
  to.buf = f.bufSize;
  to.maxFiles = 8;
  to.maxSize = 200000;
  to.maxTotal = 400000;
  Tree t = genTree(c, to);
  boundBlocks(f, t, 300);
  return t;
}
static void genCfg(Case& c, Cfg& f, bool slow) {
  genTransport(c, f, 4);
  f.fsync = false;
  f.abortCheck = (int)c.range(10, 200);
  f.resume = c.chance(1, 3);
  f.dirTree = f.resume && c.flip();
  if (f.dirTree) f.noPrealloc = true;  // required
  f.readTimeout = f.writeTimeout = slow ? 40000 : 400 + (int)c.draw(400);
  f.acceptWindow = slow ? 40000 : 1500;
  f.connectTimeout = slow ? 40000 : 500;
  f.maxTransferRetries = (int)c.range(1, 3);
  f.maxRetries = (int)c.range(1, 4);
  if (!slow) f.maxAcceptRetries = 15;
  f.drainMs = c.flip() ? 500 : 50;
  if (c.chance(1, 4)) f.sVer = (int)c.range(21, 32);
  if (c.chance(1, 4)) f.rVer = (int)c.range(21, 32);
}
static double rate(Case& c, const Tree& t) {  // so that it takes up to a second
  double mb = totalSize(t) / 1048576.0;
  return std::max(0.05, mb / (0.02 + unit(c)));
}

// a side is aborted at some moment of a transfer, later possibly the other one too
static void moments(Case& c) {
  Before before;
  {
    Run run;
    Session& x = run.x;
    bool slow = !c.chance(1, 4);
    genCfg(c, x.cfg, slow);
    Tree src = genSource(c, x.cfg);
    double slack = 0;
    if (!c.chance(1, 3)) {
      x.cfg.bufSize = std::min(x.cfg.bufSize, 8192);
      x.cfg.avgMb = rate(c, src);
      slack = x.cfg.ports * 16384.0 / (x.cfg.avgMb * 1048576);  // a thread asleep in the throttler
    }
    std::string dir = c.scratch();
    x.src = dir + "/src";
    x.dst = dir + "/dst";
    writeTree(x.src, src);
    x.recoveryId = "rec";
    int first = (int)c.draw(1);   // 0: the receiver, 1: the sender
    bool both = slow || c.flip();
    How how[2];
    for (auto& h : how) h = (How)c.weighted({3, 3, 1});
    run.abortCode = c.pick<ErrorCode>({ABORTED_BY_APPLICATION, ABORTED_BY_APPLICATION, ABORT, PROTOCOL_ERROR});
    double pause = c.flip() ? 0 : c.logRange(1, 400);
    // the moment
    int when = (int)c.weighted({1, 6, 6, 3});
    const char* wn[] = {"before start", "after ms", "at byte", "peer silent"};
    double ms = 0;
    int dirn = 0;
    int64_t at = 0;
    if (when == 0) { if (how[first] == DESTROY) how[first] = CALL; }
    if (when == 1) ms = c.flip() ? c.logRange(1, 300) - 1 : unit(c) * 20;
    if (when >= 2) {
      dirn = c.chance(1, 3);
      int64_t share = totalSize(src) / x.cfg.ports + 300;
      at = dirn ? c.logRange(1, 200) : (c.flip() ? c.logRange(1, 200) : (int64_t)c.draw(share));
    }
    std::atomic<bool>& hit = run.hit;
    if (when == 2) {
      for (int i = 0; i < x.cfg.ports; i++) x.plan.push_back(PortPlan());
    } else if (when == 3) {
      ms = 20 + c.draw(150);
      for (int i = 0; i < x.cfg.ports; i++) {
        PortPlan p;
        Fault f;
        f.act = HOLE;
        f.dir = dirn;
        f.after = c.flip() ? at : std::min<int64_t>(at, c.logRange(1, 300));
        if (i == 0 || !c.chance(1, 3)) p.conns.push_back(f);   // others may complete and wait for it
        x.plan.push_back(p);
      }
    }
    std::string what = std::string(first ? "sender" : "receiver") + " aborted by " + howName(how[first]) + " (" + errorCodeToStr(run.abortCode) + ") " + wn[when] +
                       (when == 1 || when == 3 ? " " + std::to_string(ms) + " ms" : "") + (when >= 2 ? std::string(dirn ? " <" : " >") + std::to_string(at) : "") +
                       (both ? std::string("; the other side by ") + howName(how[1 - first]) + " " + std::to_string(pause) + " ms later" : "; the other side left alone");
    c.note([&x, src, what] { return x.cfg.show() + "\nfiles: " + showTree(src) + "\n" + what; });
    if (when == 0) x.onReady = [&](WdtBase&, bool sender) { if (sender == (first == 1)) run.abort(first, how[first]); };
    double t0 = now();
    double tAbort[2] = {0, 0};
    ErrorCode e = x.startReceiver();
    if (e != OK) {
      PBT_CHECK(c, when == 0 && first == 0, "receiver did not start: " << errorCodeToStr(e));
      c.label("receiver aborted before start");
      return;
    }
    if (when == 2) x.onReady = [&](WdtBase&, bool sender) { if (sender) for (auto& f : x.fwd) f->onBytes = [&hit, dirn, at](int d, int64_t n) { if (d == dirn && n >= at) hit = true; }; };
    e = x.startSender();
    if (e != OK) {
      PBT_CHECK(c, when == 0, "sender did not start: " << errorCodeToStr(e));
      run.finisher(0);
      run.abort(0, CHECKER);
      run.join();
      c.label("sender aborted before start");
      return;
    }
    for (int s = 0; s < 2; s++)
      if (!(s == first ? how[s] == DESTROY : both && how[s] == DESTROY)) run.finisher(s);
    if (when == 0) tAbort[first] = t0;
    else {
      if (when == 1 || when == 3) msleep(ms);
      else for (double t = now(); !hit && now() - t < 3 && !run.doneAt[0] && !run.doneAt[1];) usleep(200);
      if (!run.doneAt[first]) c.label("in progress");
      tAbort[first] = now();
      if (how[first] == DESTROY) {
        if (first) x.sender.reset(); else x.receiver.reset();
        run.doneAt[first] = now();
      } else run.abort(first, how[first]);
    }
    if (both) {
      int o = 1 - first;
      if (c.flip()) for (double t = now(); !run.doneAt[first] && now() - t < kPrompt + slack;) usleep(500);
      msleep(pause);
      tAbort[o] = now();
      if (how[o] == DESTROY) {
        if (o) x.sender.reset(); else x.receiver.reset();
        run.doneAt[o] = now();
      } else run.abort(o, how[o]);
    }
    run.join();
    c.note([&x] { return "receiver " + x.r.show() + "\nsender " + x.s.show(); });
    bool reported[2], ok[2];
    for (int s = 0; s < 2; s++) {
      reported[s] = s ? !!x.sender : !!x.receiver;
      ok[s] = reported[s] && (s ? x.s : x.r).ok();
      const char* nm = s ? "sender" : "receiver";
      Rep& r = s ? x.s : x.r;
      if (tAbort[s]) {
        double took = run.doneAt[s] - tAbort[s];
        PBT_CHECK(c, took < kPrompt + slack, nm << " took " << took << " s to stop after it was aborted (" << what << ")");
        if (took > 1) c.label("took more than a second");
      } else {
        // loses its peer: ends by its timeouts
        double bound = (x.cfg.maxTransferRetries + 2) * (2 * x.cfg.readTimeout + x.cfg.maxRetries * (x.cfg.connectTimeout + x.cfg.sleepMs) + 1000) / 1000.0 + (x.cfg.acceptWindow + x.cfg.maxAcceptRetries * x.cfg.acceptTimeout) / 1000.0 + 4 + slack * 20;
        PBT_CHECK(c, run.doneAt[s] - t0 < bound, nm << " took " << run.doneAt[s] - t0 << " s to notice that its peer is gone");
      }
      if (!reported[s]) continue;
      if (ok[s]) {
        auto d = diffTrees(src, readTree(x.dst), true);
        bool complete = s ? true : x.s.discoveryDone || !reported[1];
        if (complete) PBT_CHECK(c, d.empty(), "the " << nm << " reports success but the destination has " << d << " (" << what << "); " << r.show());
      }
      if (tAbort[s] && when == 3 && !ok[s] && s == first && !(s && x.cfg.fullReporting)) {
        // nothing else went wrong on this side before: the abort or the operation it interrupted
        ErrorCode want = how[s] == CALL ? run.abortCode : ABORTED_BY_APPLICATION;
        PBT_CHECK(c, r.code == want || r.code == ABORT || r.code == ERROR || r.code == SOCKET_READ_ERROR || r.code == SOCKET_WRITE_ERROR, "the " << nm << " reports " << errorCodeToStr(r.code) << " instead of the abort " << errorCodeToStr(want) << " (" << what << ")");
      }
      c.label(std::string(nm) + ": " + errorCodeToStr(r.code));
    }
    if (when == 0) PBT_CHECK(c, !ok[first], "success although it was aborted before it started (" << what << ")");
    if (!ok[first] && run.doneAt[first] > tAbort[first] && when != 0) c.nontrivial();
    auto d = diffTrees(src, readTree(x.src));
    PBT_CHECK(c, d.empty(), "source changed: " << d);
  }
  before.check(c);
}

// ---------------------------------------------------------------- odd peers
// listens but never accepts (connections time out) or accepts and says nothing
struct DeafPeer {
  int fd;
  std::vector<int> fill;
  int port;
  explicit DeafPeer(bool full) {
    fd = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (bind(fd, (sockaddr*)&a, sizeof a) || listen(fd, full ? 0 : 64)) throw std::runtime_error("harness: listen failed");
    socklen_t l = sizeof a;
    getsockname(fd, (sockaddr*)&a, &l);
    port = ntohs(a.sin_port);
    if (full)
      for (int i = 0; i < 4; i++) {
        int s = socket(AF_INET, SOCK_STREAM, 0);
        fcntl(s, F_SETFL, O_NONBLOCK);
        (void)connect(s, (sockaddr*)&a, sizeof a);
        fill.push_back(s);
        msleep(2);
      }
  }
  ~DeafPeer() { for (int s : fill) close(s); close(fd); }
};
enum Peer { NOBODY, DEAF, FULL, CLOSED, MUTE_CLIENT };
static const char* peerName(int p) { static const char* n[] = {"nobody", "accepting but mute", "not accepting", "closed port", "connected but mute"}; return n[p]; }
// one side alone, with a peer that never takes part: aborted, or left to its timeouts
static void alone(Case& c) {
  Before before;
  {
    Run run;
    Session& x = run.x;
    bool aborted = c.flip();
    genCfg(c, x.cfg, aborted);
    Tree src = genSource(c, x.cfg);
    std::string dir = c.scratch();
    x.src = dir + "/src";
    x.dst = dir + "/dst";
    writeTree(x.src, src);
    x.recoveryId = "rec";
    int side = (int)c.draw(1);
    Peer peer = side ? c.pick<Peer>({DEAF, FULL, CLOSED}) : c.pick<Peer>({NOBODY, MUTE_CLIENT});
    How how = c.pick<How>({CALL, CHECKER, DESTROY});
    double ms = c.logRange(1, 600) - 1;
    x.cfg.maxRetries = (int)c.range(1, 4);
    if (aborted) x.cfg.maxRetries = 200;   // closed ports are tried again for long
    if (aborted) x.cfg.sleepMs = 100;
    else x.cfg.maxAcceptRetries = (int)c.range(1, 15);
    run.abortCode = c.pick<ErrorCode>({ABORTED_BY_APPLICATION, ABORTED_BY_APPLICATION, ABORT, PROTOCOL_ERROR});
    std::string what = std::string(side ? "sender" : "receiver") + ", peer " + peerName(peer) + (aborted ? std::string("; aborted by ") + howName(how) + " after " + std::to_string(ms) + " ms" : "; left to its timeouts");
    c.note([&x, src, what] { return x.cfg.show() + "\nfiles: " + showTree(src) + "\n" + what; });
    std::vector<std::unique_ptr<DeafPeer>> deaf;
    std::vector<int> clients;
    ErrorCode e;
    double t0 = now();
    if (side) {
      x.req = WdtTransferRequest(0, x.cfg.ports, x.dst);
      x.req.ports.clear();
      x.req.transferId = "vt";
      x.req.protocolVersion = 32;
      for (int i = 0; i < x.cfg.ports; i++) {
        deaf.push_back(std::make_unique<DeafPeer>(peer == FULL));
        x.req.ports.push_back(deaf.back()->port);
      }
      if (peer == CLOSED) deaf.clear();
      if (x.cfg.enc != "none") x.req.encryptionData = EncryptionParams(parseEncryptionType(x.cfg.enc), std::string(16, 's'));
      e = x.startSender();
    } else {
      e = x.startReceiver();
      if (e == OK && peer == MUTE_CLIENT)
        for (int p : x.req.ports) {
          int s = socket(AF_INET, SOCK_STREAM, 0);
          sockaddr_in a{};
          a.sin_family = AF_INET;
          a.sin_port = htons(p);
          a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
          (void)connect(s, (sockaddr*)&a, sizeof a);
          clients.push_back(s);
        }
    }
    PBT_EQ(c, (int)e, (int)OK, "did not start (" << what << ")");
    bool gone = aborted && how == DESTROY;
    double tAbort = 0;
    if (!gone) run.finisher(side);
    if (aborted) {
      msleep(ms);
      if (!run.doneAt[side]) c.label("in progress");
      tAbort = now();
      if (gone) { if (side) x.sender.reset(); else x.receiver.reset(); run.doneAt[side] = now(); }
      else run.abort(side, how);
    }
    run.join();
    double end = run.doneAt[side];
    for (int s : clients) close(s);
    if (!gone) {
      Rep& r = side ? x.s : x.r;
      PBT_CHECK(c, !r.ok(), "success without a peer (" << what << ")");
      c.label(errorCodeToStr(r.code));
    }
    if (aborted) {
      PBT_CHECK(c, end - tAbort < kPrompt, "took " << end - tAbort << " s to stop after it was aborted (" << what << ")");
      if (end > tAbort) c.nontrivial();
    } else {
      double per = (2 * x.cfg.readTimeout + x.cfg.maxRetries * (x.cfg.connectTimeout + x.cfg.sleepMs)) / 1000.0 + 0.5;
      double bound = side ? (x.cfg.maxTransferRetries + 2) * per + 4 : (x.cfg.acceptWindow + 2 * x.cfg.readTimeout + x.cfg.maxAcceptRetries * x.cfg.acceptTimeout) / 1000.0 * 2 + 5;
      PBT_CHECK(c, end - t0 < bound, "took " << end - t0 << " s although its timeouts end it after less than " << bound << " s (" << what << ")");
      c.nontrivial();
    }
    c.label(what.substr(0, what.find(';')));
  }
  before.check(c);
}

int main(int argc, char** argv) {
  return pbt::main(argc, argv, "C28", {
    {"codes", codes, 30000, 400000, 20, true, "a version mismatch came both before and after another abort code"},
    {"moments", moments, 1000, 8000, 100, true, "the aborted side was stopped before it was done"},
    {"alone", alone, 600, 5000, 100, true, "the side was still running when aborted, or had to end by itself"},
  });
}
