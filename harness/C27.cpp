// variant: asan
// libs: core
// workers: 48
// A sender survives any peer: no crash, an end within its timeouts, its source
// untouched, and no success without a peer that took and completed everything.
#include "common_e2e.h"
#include <folly/hash/Checksum.h>
#include <sys/resource.h>
#include <signal.h>
#include <wdt/Protocol.h>
#include <wdt/util/ServerSocket.h>
using namespace e2e;
using pbt::Case;

static void leb(std::string& s, uint64_t v) {
  while (v >= 0x80) { s += (char)(v | 0x80); v >>= 7; }
  s += (char)v;
}
static void lebStr(std::string& s, const std::string& x) { leb(s, x.size()); s += x; }
template <class T>
static void fixed(std::string& s, T v) { for (size_t i = 0; i < sizeof v; i++) s += (char)((uint64_t)v >> (8 * i)); }

struct Cp { int64_t port{0}, blocks{0}, bytes{0}, seq{0}, off{0}; };
static std::string encCps(int ver, const std::vector<Cp>& v) {
  std::string s;
  leb(s, v.size());
  for (auto& p : v) {
    leb(s, p.port);
    leb(s, p.blocks);
    if (ver >= 16) leb(s, p.bytes);
    if (ver >= 21) { leb(s, p.seq); leb(s, p.off); }
  }
  return s;
}
static size_t localLen(int ver) { return 30 + (ver >= 16 ? 10 : 0) + (ver >= 21 ? 20 : 0); }
static std::string localCp(int ver, const Cp& p) {
  std::string s = encCps(ver, {p});
  s.resize(std::max(s.size(), localLen(ver)), '\0');
  return s;
}
static std::string errCmd(int ver, const std::vector<Cp>& v) {
  std::string l = encCps(ver, v), s = "E";
  fixed<int16_t>(s, l.size());
  return s + l;
}
static std::string abortCmd(int32_t version, int code, int64_t cp) {
  std::string s = "A";
  fixed<int32_t>(s, version);
  s += (char)code;
  fixed<int64_t>(s, cp);
  return s;
}
struct Claim { int64_t seq{0}; std::string name; int64_t size{0}; std::vector<std::pair<int64_t, int64_t>> iv; };
static std::string encClaim(const Claim& f) {
  std::string s;
  leb(s, f.seq);
  lebStr(s, f.name);
  leb(s, f.size);
  leb(s, f.iv.size());
  for (auto& i : f.iv) { leb(s, i.first); leb(s, i.second); }
  return s;
}
static std::string chunksCmd(int64_t buf, int64_t n) { std::string s = "C"; fixed<int64_t>(s, buf); fixed<int64_t>(s, n); return s; }
static std::string chunkList(const std::string& body) { std::string s; fixed<int32_t>(s, body.size()); return s + body; }

// ---------------------------------------------------------------- script
enum At { ACCEPTED, SETTINGS, MID, DONE };
static const char* atName(int a) { static const char* n[] = {"accepted", "settings", "after bytes", "done"}; return n[a]; }
enum Next { GO_ON, CLOSE, RESET, HANG, DRAIN };
static const char* nextName(int n) { static const char* s[] = {"go on", "close", "reset", "hang", "only read"}; return s[n]; }
struct Step {
  At at{DONE};
  int nth{0};          // which DONE
  int64_t after{0};    // bytes of the sender's stream
  std::string send, what;
  bool hasDone{false};
  bool instead{false};  // of what an honest peer would say now
  Next next{GO_ON};
  bool used{false};
  std::string show() const { std::ostringstream o; o << "at " << atName(at) << " " << (at == MID ? after : nth) << (instead ? " instead " : " also ") << what << " then " << nextName(next); return o.str(); }
};
struct Conn {
  std::vector<Step> steps;
  std::vector<std::pair<size_t, int>> flips;  // of the bytes sent: position, xor
  std::string raw;                            // unencrypted bytes sent instead of everything
  Next rawNext{CLOSE};
};

struct Plan {
  bool neverDone{false};   // no DONE from any port
  bool partials{false};    // tell about partial blocks
  int waits{0};            // WAIT commands before an answer
  bool heartBeats{false};
  std::vector<Claim> claims;
  size_t listBytes{1 << 20};
};
// what the servers of one transfer know together
struct World {
  std::mutex m;
  Tree src;
  Plan plan;
  std::map<std::string, std::string> have;  // bitmaps
  int64_t missing{0};
  std::set<std::string> emptySeen;
  std::string wrong;
  bool chunksSent{false};
  std::atomic<int> dones{0}, ended{0}, conns{0}, doneCmds{0};
  struct P { int64_t blocks{0}; int64_t blocksTold{0}; bool dead{false}; bool live{false}; };
  std::vector<P> ports;
  std::vector<int> portNo;
  void init(const Tree& t, int n) {
    src = t;
    ports.resize(n);
    for (auto& e : t) { have[e.first] = std::string(e.second.size(), 0); missing += e.second.size() + (e.second.empty() ? 1 : 0); }
  }
  void mark(const std::string& f, int64_t off, int64_t n) {
    auto it = have.find(f);
    if (it == have.end()) return;
    if (it->second.empty()) { if (emptySeen.insert(f).second) missing--; return; }
    for (int64_t i = off; i < off + n && i < (int64_t)it->second.size(); i++) if (!it->second[i]) { it->second[i] = 1; missing--; }
  }
  bool complete() { std::lock_guard<std::mutex> g(m); return missing == 0; }
  int64_t covered(const std::string& f) { std::lock_guard<std::mutex> g(m); int64_t n = 0; for (char x : have[f]) n += x; return n; }
};
struct Server {
  World& w;
  size_t idx;
  const Cfg& cfg;
  WdtOptions opts;
  std::atomic<bool>& stop;
  struct Stop : IAbortChecker { std::atomic<bool>* s; bool shouldAbort() const override { return *s; } } chk;
  std::unique_ptr<ThreadCtx> ctx;
  std::unique_ptr<ServerSocket> s;
  std::vector<Conn> conns;
  int ver;        // the version this peer speaks
  int curVer{0};  // of the current connection
  bool tags;
  // one connection
  std::string in;
  size_t at{0};
  int64_t total{0}, out{0};
  Conn cn;
  std::string lastName;
  Cp partial;
  struct Gone {};
  Server(World& w_, size_t i, const Cfg& c, const EncryptionParams& enc, int64_t iv, std::atomic<bool>& st) : w(w_), idx(i), cfg(c), stop(st), ver(c.rVer) {
    c.apply(opts);
    chk.s = &stop;
    tags = encryptionTypeToTagLen(enc.getType()) > 0;
    ctx = std::make_unique<ThreadCtx>(opts, false);
    ctx->setAbortChecker(&chk);
    s = std::make_unique<ServerSocket>(*ctx, 0, 10, enc, iv, [] {});
    if (s->listen() != OK) throw std::runtime_error("harness: server does not listen");
  }
  void put(std::string b) {
    for (auto& f : cn.flips) if ((int64_t)f.first >= out && (int64_t)f.first < out + (int64_t)b.size()) b[f.first - out] ^= (char)f.second;
    out += b.size();
    size_t o = 0;
    while (o < b.size()) {
      int n = (int)std::min<size_t>(b.size() - o, 65536);
      if (s->write(&b[o], n, false) != n) throw Gone();
      o += n;
    }
  }
  void leave(Next n) {
    if (n == RESET) { linger l{1, 0}; if (s->getFd() >= 0) setsockopt(s->getFd(), SOL_SOCKET, SO_LINGER, &l, sizeof l); }
    if (n == HANG) for (double t = now(); now() - t < 1.5 && !stop;) msleep(10);
    if (n == DRAIN) {
      double t = now();
      char b[65536];
      while (now() - t < 2 && !stop) { ssize_t k = recv(s->getFd(), b, sizeof b, MSG_DONTWAIT); if (k == 0 || (k < 0 && errno != EAGAIN)) break; if (k < 0) msleep(5); }
    }
    throw Gone();
  }
  // true if a step replaced the honest answer
  bool steps(At a, int nth) {
    bool inst = false;
    for (auto& st : cn.steps) {
      if (st.used || st.at != a || (a != MID && st.nth != nth) || (a == MID && total < st.after)) continue;
      st.used = true;
      if (st.hasDone) w.dones++;
      put(st.send);
      inst |= st.instead;
      if (st.next != GO_ON) leave(st.next);
    }
    return inst;
  }
  void more(double wait) {
    char b[65536];
    double until = now() + wait;
    int64_t lim = sizeof b;
    for (auto& st : cn.steps) if (!st.used && st.at == MID && st.after > total) lim = std::min<int64_t>(lim, st.after - total);
    while (now() < until && !stop) {
      int k = s->readWithTimeout(b, (int)lim, 50, false);
      if (k > 0) {
        in.append(b, k);
        total += k;
        steps(MID, 0);
        return;
      }
      if (k == 0) throw Gone();
      if (s->getReadErrCode() != WDT_TIMEOUT) throw Gone();
    }
    throw Gone();
  }
  void need(size_t n) {
    while (in.size() - at < n) more(3);
  }
  void eat(size_t n) {
    at += n;
    if (at > 300000) { in.erase(0, at); at = 0; }
  }
  uint64_t getLeb() {
    uint64_t v = 0;
    for (int sh = 0;; sh += 7) {
      need(1);
      unsigned char b = in[at];
      eat(1);
      v |= (uint64_t)(b & 127) << sh;
      if (!(b & 128) || sh > 56) return v;
    }
  }
  void bad(const std::string& t) { std::lock_guard<std::mutex> g(w.m); if (w.wrong.empty()) w.wrong = t; }
  void oneConnection(int k) {
    in.clear();
    at = 0;
    total = out = 0;
    cn = k < (int)conns.size() ? conns[k] : Conn();
    bool replaced = steps(ACCEPTED, 0);
    need(1);
    auto& me = w.ports[idx];
    int nDone = 0;
    while (true) {
      need(1);
      char cmd = in[at];
      if (cmd == 'S') {
        Settings st;
        int v = 0;
        while (true) {
          int64_t off = 1;
          std::string c = in.substr(at, 2000);
          if (Protocol::decodeVersion(&c[0], off, c.size(), v) && Protocol::decodeSettings(v, &c[0], off, c.size(), st)) {
            if (st.sendFileChunks) { off = std::max<int64_t>(off, Protocol::kMinBufLength); need(off); }
            eat(off);
            break;
          }
          more(3);
        }
        curVer = v;
        replaced = steps(SETTINGS, 0);
        if (v > ver && !replaced) { put(abortCmd(ver, VERSION_MISMATCH, 0)); leave(CLOSE); }
        if (st.sendFileChunks && !replaced) {
          bool first;
          { std::lock_guard<std::mutex> g(w.m); first = !w.chunksSent; }
          if (first) {
            put(chunksCmd(w.plan.listBytes, w.plan.claims.size()));
            std::string body;
            for (auto& f : w.plan.claims) {
              std::string e = encClaim(f);
              if (!body.empty() && body.size() + e.size() > w.plan.listBytes) { put(chunkList(body)); body.clear(); }
              body += e;
            }
            if (!body.empty()) put(chunkList(body));
            need(1);
            if (in[at] != 'a') { bad("no ACK for the list of received chunks"); throw Gone(); }
            eat(1);
            std::lock_guard<std::mutex> g(w.m);
            w.chunksSent = true;
            for (auto& f : w.plan.claims) {
              if (f.size == 0) w.mark(f.name, 0, 0);
              for (auto& i : f.iv) w.mark(f.name, i.first, i.second - i.first);
            }
          } else put("a");
        }
        if (w.plan.heartBeats && st.enableHeartBeat && !replaced) put("H");
      } else if (cmd == 'L') {
        need(4);
        int64_t len = (unsigned char)in[at + 2] | (unsigned char)in[at + 3] << 8;
        need(len);
        std::string h = in.substr(at, len);
        int64_t off = 4;
        BlockDetails d;
        if (!Protocol::decodeHeader(curVer, &h[0], off, h.size(), d) || off != len) { bad("undecodable header"); throw Gone(); }
        eat(len);
        bool del = d.allocationStatus == TO_BE_DELETED;
        auto it = w.src.find(d.fileName);
        if (!del && it == w.src.end()) { bad("block of a file that does not exist: " + d.fileName); throw Gone(); }
        if (!del && (d.offset + d.dataSize > (int64_t)it->second.size() || d.fileSize != (int64_t)it->second.size())) { bad("block outside the file " + d.fileName); throw Gone(); }
        int64_t got = 0;
        uint32_t sum = 0;
        bool canPartial = w.plan.partials && !tags && !cfg.checksum && curVer >= 21 && !del;
        try {
          while (got < d.dataSize) {
            need(1);
            int64_t n = std::min<int64_t>(in.size() - at, d.dataSize - got);
            if (it->second.compare(d.offset + got, n, in, at, n)) { bad("wrong bytes of " + d.fileName + " sent at " + std::to_string(d.offset + got)); throw Gone(); }
            sum = folly::crc32c((const uint8_t*)in.data() + at, n, sum);
            eat(n);
            got += n;
          }
          if (cfg.checksum && curVer >= 12) {
            need(1);
            if (in[at] != 'F') { bad("no footer"); throw Gone(); }
            eat(1);
            uint64_t z = getLeb();
            if ((uint32_t)(int32_t)((z >> 1) ^ (~(z & 1) + 1)) != sum) { bad("wrong checksum sent"); throw Gone(); }
          }
        } catch (Gone&) {
          if (canPartial && got > 0) partial = {0, 0, got, d.seqId, d.offset}, lastName = d.fileName;
          throw;
        }
        std::lock_guard<std::mutex> g(w.m);
        me.blocks++;
        if (!del) w.mark(d.fileName, d.offset, d.dataSize);
      } else if (cmd == 'Z') {
        eat(1);
        getLeb();
      } else if (cmd == 'D') {
        need(Protocol::kMinBufLength);
        eat(Protocol::kMinBufLength);
        w.doneCmds++;
        replaced = steps(DONE, nDone++);
        if (!replaced) {
          if (!answer()) continue;
          return;
        }
      } else {
        bad("unexpected command " + std::to_string((unsigned char)cmd));
        throw Gone();
      }
    }
  }
  void finishDone() {
    put("D");
    w.dones++;
    char d;
    if (s->readWithTimeout(&d, 1, 1000, true) != 1 || d != 'D') throw Gone();
    s->expectEndOfStream();
    if (s->closeConnection() == OK) w.ended++;
  }
  // true: the session is over
  bool answer() {
    for (int i = 0; i < w.plan.waits; i++) put("W");
    double t = now();
    while (now() - t < 1.2 && !stop) {
      std::vector<Cp> cps;
      {
        std::lock_guard<std::mutex> g(w.m);
        for (size_t i = 0; i < w.ports.size(); i++)
          if (i != idx && w.ports[i].dead && !told.count(i)) { told.insert(i); cps.push_back({w.portNo[i], w.ports[i].blocks, 0, 0, 0}); }
      }
      if (!cps.empty()) { put(errCmd(curVer, cps)); return false; }
      if (w.complete() && !w.plan.neverDone) { finishDone(); return true; }
      put("W");
      msleep(20);
    }
    throw Gone();
  }
  std::set<size_t> told;
  void raw() {
    // the socket's encryption settings are never read
    int fd = s->getFd();
    size_t o = 0;
    while (o < cn.raw.size()) {
      ssize_t k = send(fd, cn.raw.data() + o, cn.raw.size() - o, MSG_NOSIGNAL | MSG_DONTWAIT);
      if (k < 0 && errno == EAGAIN) break;  // not read
      if (k <= 0) break;
      o += k;
    }
    leave(cn.rawNext);
  }
  void run(const std::vector<Conn>& script, int maxConns, const std::atomic<bool>& over) {
    conns = script;
    in.reserve(400000);
    bool first = true;
    for (int k = 0; k < maxConns && !stop && !over;) {
      if (s->acceptNextConnection(100, true) != OK) continue;
      w.conns++;
      try {
        if (k < (int)conns.size() && !conns[k].raw.empty()) { cn = conns[k]; raw(); }
        // a connection that is not the first one is only for those who continue
        if (!first) {
          in.clear();
          at = 0;
          out = total = 0;
          cn = k < (int)conns.size() ? conns[k] : Conn();
          bool noCp = false;
          for (auto& st : cn.steps) noCp |= st.at == ACCEPTED && st.instead;
          if (!noCp) {
            Cp p;
            { std::lock_guard<std::mutex> g(w.m); p = partial; p.port = w.portNo[idx]; p.blocks = w.ports[idx].blocks; if (p.bytes) w.mark(lastName, p.off, p.bytes); }
            partial = Cp();
            put(localCp(curVer ? curVer : std::min(ver, cfg.sVer), p));
          }
        }
        oneConnection(k);
        s->closeNoCheck();
        break;
      } catch (Gone&) {
      }
      s->closeNoCheck();
      k++;
      first = false;
    }
    s->closeAllNoCheck();
    std::lock_guard<std::mutex> g(w.m);
    w.ports[idx].dead = true;
  }
};

// ---------------------------------------------------------------- one transfer
static void limits() {
  rlimit l{16 << 20, RLIM_INFINITY};
  getrlimit(RLIMIT_FSIZE, &l);
  l.rlim_cur = 16 << 20;
  setrlimit(RLIMIT_FSIZE, &l);
  signal(SIGXFSZ, SIG_IGN);
}
struct Run {
  World w;
  Session x;
  std::atomic<bool> stop{false}, over{false};
  std::vector<std::vector<Conn>> script;  // per port
  std::function<void()> fillIn;           // completes it once the ports are known
  int maxConns{6};
  std::vector<std::unique_ptr<Server>> sv;
  std::vector<std::thread> th;
  std::thread fin;
  std::map<std::string, std::string> before;
  double started{0}, left{0};
  bool aborted{false}, hung{false};
  ~Run() {
    stop = true;
    for (auto& t : th) if (t.joinable()) t.join();
    if (fin.joinable()) { x.sender->abort(ABORTED_BY_APPLICATION); fin.join(); }
  }
  void go(Case& c, bool mayWait, const std::string& what) {
    Cfg& f = x.cfg;
    std::string dir = c.scratch();
    x.src = dir + "/src";
    writeTree(x.src, w.src);
    snapshot(dir, "", before, true);
    x.req = WdtTransferRequest(0, f.ports, dir + "/dst");
    x.req.ports.clear();
    x.req.transferId = "vt";
    x.req.protocolVersion = f.sVer;
    if (f.enc != "none") x.req.encryptionData = EncryptionParams(parseEncryptionType(f.enc), std::string(16, 's'));
    x.req.ivChangeInterval = (int64_t)f.ivMb << 20;
    for (int i = 0; i < f.ports; i++) {
      sv.push_back(std::make_unique<Server>(w, i, f, x.req.encryptionData, std::min(f.sVer, f.rVer) >= 30 ? x.req.ivChangeInterval : 0, stop));
      x.req.ports.push_back(sv.back()->s->getPort());
      w.portNo.push_back(sv.back()->s->getPort());
    }
    script.resize(f.ports);
    if (fillIn) fillIn();
    for (int i = 0; i < f.ports; i++) th.emplace_back([this, i] { sv[i]->run(script[i], maxConns, over); });
    started = now();
    ErrorCode e = x.startSender();
    PBT_EQ(c, (int)e, (int)OK, "the sender did not start");
    fin = std::thread([this] { x.finishSender(); over = true; });
    // every wait of the peers is bounded
    double bound = mayWait ? 6 : 60;
    while (!over && now() - started < bound) msleep(3);
    if (!over) {
      if (!mayWait) hung = true;
      PBT_CHECK(c, mayWait, "still running after " << now() - started << " s (" << what << ")");
      double t = now();
      aborted = true;
      x.sender->abort(ABORTED_BY_APPLICATION);
      while (!over && now() - t < 5) msleep(5);
      hung = !over;
      PBT_CHECK(c, over, "still running " << now() - t << " s after it was aborted (" << what << ")");
    }
    fin.join();
    left = now() - started;
    stop = true;
    for (auto& t : th) t.join();
    th.clear();
    std::map<std::string, std::string> after;
    snapshot(dir, "", after, true);
    PBT_CHECK(c, before == after, "the source directory changed (" << what << ")");
  }
};
static void genCfg(Case& c, Cfg& f, int maxPorts) {
  genTransport(c, f, maxPorts);
  f.resume = c.chance(1, 3);
  f.deleteExtra = c.flip();
  f.readTimeout = f.writeTimeout = 300;
  f.maxRetries = 3;
  f.connectTimeout = 500;
  f.maxTransferRetries = (int)c.range(1, 3);
  f.drainMs = 50;
  f.abortCheck = 20;
  if (c.chance(1, 4)) f.sVer = f.rVer = (int)c.range(f.enc == "none" ? 10 : 23, 32);
  if (c.chance(1, 6)) f.rVer = (int)c.range(f.enc == "none" ? 10 : 23, f.sVer);
  if (c.chance(1, 10)) f.rVer = (int)c.range(f.sVer, 40);
}
static Tree genSource(Case& c, Cfg& f) {
  TreeOpts o;
  o.block = std::max<int64_t>(1, f.blockBytes());
  o.buf = f.bufSize;
  o.maxTotal = 300000;
  o.maxSize = 120000;
  o.maxFiles = 8;
  Tree t = genTree(c, o);
  boundBlocks(f, t, 150);
  return t;
}
static int64_t blockSize(Run& r) { return std::max<int64_t>(1, r.x.cfg.blockBytes()); }
static std::string showScript(Run& r) {
  std::ostringstream o;
  for (size_t p = 0; p < r.script.size(); p++)
    for (size_t k = 0; k < r.script[p].size(); k++) {
      auto& cn = r.script[p][k];
      if (cn.steps.empty() && cn.flips.empty() && cn.raw.empty()) continue;
      o << "  port " << p << " connection " << k << ": ";
      if (!cn.raw.empty()) o << "raw " << pbt::show(cn.raw, 60) << " then " << nextName(cn.rawNext);
      for (auto& s : cn.steps) o << s.show() << "; ";
      for (auto& f : cn.flips) o << "flip@" << f.first << "^" << f.second << " ";
      o << "\n";
    }
  return o.str();
}
static Plan genPlan(Case& c, Run& r) {
  Plan p;
  p.partials = c.flip();
  p.waits = c.chance(1, 3) ? (int)c.logRange(1, 50) : 0;
  p.heartBeats = c.flip();
  if (r.x.cfg.resume && c.flip()) {
    int64_t seq = 0;
    for (auto& e : r.w.src) {
      seq += c.range(0, 2);
      if (!c.flip()) { seq++; continue; }
      Claim k;
      k.seq = seq++;
      k.name = e.first;
      k.size = e.second.size();
      // whole blocks, as a receiver logs them, or the head of one
      int64_t b = r.x.cfg.blockBytes() > 0 ? r.x.cfg.blockBytes() : k.size, at = 0;
      while (at < k.size) {
        int64_t n = std::min(b, k.size - at);
        int what = (int)c.draw(2);
        if (what == 1) k.iv.push_back({at, at + n});
        else if (what == 2 && n > 1) k.iv.push_back({at, at + (int64_t)c.range(1, n - 1)});
        at += n;
        if (k.iv.size() > 30) break;
      }
      // a receiver merges neighbours
      std::vector<std::pair<int64_t, int64_t>> m;
      for (auto& i : k.iv) if (!m.empty() && m.back().second == i.first) m.back().second = i.second; else m.push_back(i);
      k.iv = m;
      if (!k.iv.empty() || c.flip()) p.claims.push_back(k);
    }
    if (c.chance(1, 3)) { Claim k; k.seq = seq + 1; k.name = "gone"; k.size = c.draw(5000); if (k.size) k.iv.push_back({0, k.size}); p.claims.push_back(k); }
    if (c.chance(1, 3)) p.listBytes = c.logRange(1500, 100000);
  }
  return p;
}
static void outcome(Case& c, Run& r) {
  c.label(r.x.s.ok() ? "OK" : errorCodeToStr(r.x.s.code));
}

struct Holder {  // a transfer that does not end is left behind
  Run* r{new Run};
  ~Holder() { if (r->hung) { r->stop = true; r->fin.detach(); } else delete r; }
};

// ---------------------------------------------------------------- careful: never acknowledges what it does not have
static void careful(Case& c) {
  limits();
  Holder holder;
  Run& r = *holder.r;
  Cfg& f = r.x.cfg;
  genCfg(c, f, 4);
  Tree t = genSource(c, f);
  r.w.init(t, f.ports);
  r.w.plan = genPlan(c, r);
  int faults = (int)c.weighted({2, 4, 2, 2, 1});
  r.w.plan.neverDone = c.chance(1, 8);
  r.script.resize(f.ports);
  int64_t total = totalSize(t) + 600;
  bool kill = false;
  for (int i = 0; i < faults; i++) {
    auto& port = r.script[c.draw(f.ports - 1)];
    size_t k = c.draw(2);
    if (port.size() <= k) port.resize(k + 1);
    Step s;
    s.at = c.pick<At>({ACCEPTED, SETTINGS, MID, MID, MID, At::DONE});
    s.after = c.flip() ? (int64_t)c.draw(total) : (int64_t)c.logRange(1, total);
    s.nth = s.at == At::DONE ? (int)c.draw(1) : 0;
    s.next = c.pick<Next>({CLOSE, RESET, HANG, DRAIN});
    s.what = "nothing";
    port[k].steps.push_back(s);
  }
  // a port that only works once or never
  if (c.chance(1, 5)) { r.maxConns = 1; kill = true; }
  bool quiet = faults == 0 && !r.w.plan.neverDone && !kill && f.rVer >= 10 && f.rVer == f.sVer;
  std::string what = "careful peer";
  c.note([&r, t] { return r.x.cfg.show() + "\nfiles: " + showTree(t) + "\nclaims " + std::to_string(r.w.plan.claims.size()) + (r.w.plan.neverDone ? " never DONE" : "") + " partials " + std::to_string(r.w.plan.partials) + " waits " + std::to_string(r.w.plan.waits) + " maxConns " + std::to_string(r.maxConns) + "\n" + showScript(r); });
  r.go(c, false, what);
  outcome(c, r);
  PBT_CHECK(c, r.w.wrong.empty(), r.w.wrong);
  if (r.x.s.ok()) {
    PBT_CHECK(c, r.w.dones > 0, "success although the peer never completed the session");
    PBT_CHECK(c, r.w.complete(), "success although " << r.w.missing << " bytes never arrived");
    PBT_CHECK(c, r.x.s.failedSources.empty(), "success with failed files");
  }
  if (quiet) PBT_CHECK(c, r.x.s.ok(), "an undisturbed transfer failed: " << r.x.s.show());
  std::map<std::string, int64_t> eff;
  for (auto& e : r.x.s.sources) eff[e.first] += e.second;
  for (auto& e : eff)
    if (t.count(e.first)) PBT_CHECK(c, e.second <= r.w.covered(e.first), e.second << " bytes of " << pbt::show(e.first) << " reported as transferred, the peer has " << r.w.covered(e.first));
  

  if (r.w.doneCmds > 0 && (faults || r.w.plan.neverDone || kill || f.rVer != f.sVer || !r.w.plan.claims.empty())) c.nontrivial();
}

// ---------------------------------------------------------------- hostile
static int64_t edgy(Case& c) {
  switch (c.draw(5)) {
    case 0: return c.range(0, 20);
    case 1: return c.pick<int64_t>({-1, -2, INT32_MAX, INT32_MIN, INT64_MAX, INT64_MIN, (int64_t)1 << 32, (int64_t)INT32_MAX + 1, 65536, 65535, 32768});
    case 2: return (int64_t)c.logRange(1, INT64_MAX);
    case 3: return c.logRange(1, 100000);
    default: return c.i64();
  }
}
// ports are not known yet: -100 - index stands for one
struct Hostile { std::string what; std::function<std::string(Run&, int)> make; bool fatal{false}, hasDone{false}; int abortCode{-1}; };
static Cp genCp(Case& c, Run& r, int self, bool& own, bool& bad) {
  Cp p;
  bad = false;
  own = false;
  switch (c.weighted({5, 3, 2})) {
    case 0: own = true; p.port = -100 - self; break;
    case 1: { int o = (int)c.draw(r.x.cfg.ports - 1); own = o == self; p.port = -100 - o; break; }
    default: p.port = c.pick<int64_t>({0, 1, -1, 65536, INT32_MAX, (int64_t)INT32_MAX + 1, INT64_MAX, INT64_MIN}); break;
  }
  switch (c.draw(3)) {
    case 0: p.blocks = 0; break;
    case 1: p.blocks = c.range(0, 6); break;
    case 2: p.blocks = c.logRange(1, 200); break;
    default: p.blocks = edgy(c); break;
  }
  if (c.flip()) {
    p.bytes = c.flip() ? (int64_t)c.logRange(1, 200000) : edgy(c);
    p.seq = c.flip() ? (int64_t)c.range(0, 10) : edgy(c);
    p.off = c.flip() ? blockSize(r) * (int64_t)c.range(0, 5) : edgy(c);
  }
  // more blocks than there are, or numbers nobody could have meant
  if (p.blocks > 100000 || p.blocks < 0 || p.bytes < 0) bad = true;
  return p;
}
static Cp real(Run& r, Cp p) { if (p.port <= -100 && p.port > -200) p.port = r.w.portNo[-100 - p.port]; return p; }
static Hostile genHostile(Case& c, Run& r, int port) {
  Hostile h;
  std::ostringstream o;
  int v = std::min(r.x.cfg.rVer, r.x.cfg.sVer);
  switch (c.weighted({3, 2, 3, 8, 6, 6, 2, 5, 3, 2, 2})) {
    case 0: { int n = (int)c.logRange(1, 20000); h.make = [n](Run&, int) { return std::string(n, 'W'); }; o << n << " WAIT"; break; }
    case 1: { int n = (int)c.logRange(1, 20000); h.make = [n](Run&, int) { return std::string(n, 'H'); }; o << n << " HEART_BEAT"; break; }
    case 2: { int n = (int)c.range(1, 3); h.make = [n](Run&, int) { return std::string(n, 'D'); }; h.hasDone = true; o << n << " DONE"; break; }
    case 3: {
      std::vector<Cp> v2;
      int n = (int)c.weighted({1, 6, 3, 1});
      if (n == 3) n = 40;
      o << "ERR";
      for (int i = 0; i < n; i++) {
        bool own, bad;
        v2.push_back(genCp(c, r, port, own, bad));
        if (i < 4) o << " (" << v2.back().port << " " << v2.back().blocks << " " << v2.back().bytes << " " << v2.back().seq << " " << v2.back().off << ")";
      }
      int trick = (int)c.weighted({8, 1, 1, 1, 1});
      int arg = (int)c.range(0, 2000);
      o << " trick " << trick << "/" << arg;
      h.make = [v2, trick, arg, v](Run& rr, int) {
        std::vector<Cp> w2;
        for (auto& p : v2) w2.push_back(real(rr, p));
        std::string s = errCmd(v, w2);
        if (trick == 1) { s.resize(1); fixed<int16_t>(s, -arg); }
        if (trick == 2) { s.resize(1); fixed<int16_t>(s, (int16_t)(32767 - arg)); }
        if (trick == 3) { s[3] = (char)0xff; }          // many entries announced
        if (trick == 4) s.resize(s.size() - std::min<size_t>(s.size() - 1, arg % 20 + 1));
        return s;
      };
      if (trick == 1) h.fatal = true;
      break;
    }
    case 4: {
      int32_t ver = c.pick<int32_t>({0, 1, 9, 10, 12, 20, 22, 23, 28, 31, 32, 33, 100, -1, INT32_MAX, INT32_MIN, (int32_t)c.draw(40)});
      int code = c.flip() ? (int)VERSION_MISMATCH : c.flip() ? (int)c.draw(33) : (int)c.draw(255);
      int64_t cp = c.flip() ? (int64_t)c.draw(5) : edgy(c);
      h.make = [ver, code, cp](Run&, int) { return abortCmd(ver, code, cp); };
      h.abortCode = code;
      h.fatal = code != VERSION_MISMATCH;
      o << "ABORT version " << ver << " code " << code << " checkpoint " << cp;
      break;
    }
    case 5: {
      int64_t buf = c.weighted({2, 1}) ? edgy(c) : (int64_t)c.logRange(1, 100000), n = c.flip() ? (int64_t)c.range(0, 6) : edgy(c);
      std::string s = chunksCmd(buf, n), body;
      int k = (int)c.range(0, 5);
      o << "CHUNKS " << buf << " " << n << ":";
      for (int i = 0; i < k; i++) {
        Claim q;
        auto it = r.w.src.begin();
        if (!r.w.src.empty()) std::advance(it, c.draw(r.w.src.size() - 1));
        bool known = !r.w.src.empty() && c.flip();
        q.name = known ? it->first : c.pick<std::string>({"", "x", "../x", "/etc/x", "a/b", std::string(3000, 'n')});
        q.size = known && c.flip() ? (int64_t)it->second.size() : edgy(c);
        q.seq = c.flip() ? (int64_t)c.range(0, 4) : edgy(c);
        for (int j = (int)c.draw(4); j > 0; j--) { int64_t a = c.flip() ? (int64_t)c.logRange(1, 5000) - 1 : edgy(c), b = c.flip() ? a + (int64_t)c.draw(5000) : edgy(c); q.iv.push_back({a, b}); }
        std::string e = encClaim(q);
        if (c.chance(1, 10)) e = c.bytes(1, 40);
        o << " " << pbt::show(q.name, 10) << " " << q.seq << " " << q.size << " x" << q.iv.size();
        if (c.chance(1, 3)) { s += chunkList(body); body.clear(); }
        body += e;
      }
      int trick = (int)c.weighted({6, 1, 1, 1, 1});
      if (trick == 1) { fixed<int32_t>(s, c.pick<int32_t>({0, -1, INT32_MIN, INT32_MAX, 100000000})); o << " bogus length"; }
      else if (trick != 2) s += chunkList(body);
      if (trick == 3 && s.size() > 18) { s.resize(s.size() - 1); o << " short"; }
      if (trick == 4) { s += s; o << " twice"; }
      h.make = [s](Run&, int) { return s; };
      h.fatal = buf < 0 || n < 0;
      break;
    }
    case 6: h.make = [](Run&, int) { return std::string("a"); }; o << "ACK"; break;
    case 7: {
      bool own, bad;
      Cp p = genCp(c, r, port, own, bad);
      int ver = c.chance(1, 4) ? (int)c.pick({10, 16, 21, 32}) : v;
      int extra = c.chance(1, 4) ? (int)c.range(-10, 10) : 0;
      h.make = [p, ver, extra](Run& rr, int) { std::string s = localCp(ver, real(rr, p)); s.resize(s.size() + extra, '\0'); return s; };
      o << "checkpoint (" << p.port << " " << p.blocks << " " << p.bytes << " " << p.seq << " " << p.off << ") v" << ver << " length " << extra;
      break;
    }
    case 8: { std::string s = c.bytes(1, 400); h.make = [s](Run&, int) { return s; }; h.hasDone = true; o << "bytes " << pbt::show(s, 40); break; }
    case 9: { char b = c.pick<char>({'L', 'S', 'Z', 'F', 'e', 'w', 0, 2, (char)0xff, (char)0x80}); h.make = [b](Run&, int) { return std::string(1, b); }; o << "command " << (int)b; h.fatal = true; break; }
    default: { size_t n = c.logRange(1, 300000); std::string s = c.blob(n); h.make = [s](Run&, int) { return s; }; h.hasDone = true; o << n << " random bytes"; break; }
  }
  h.what = o.str();
  return h;
}
static void hostile(Case& c) {
  limits();
  Holder holder;
  Run& r = *holder.r;
  Cfg& f = r.x.cfg;
  genCfg(c, f, 4);
  Tree t = genSource(c, f);
  r.w.init(t, f.ports);
  r.w.plan = genPlan(c, r);
  r.w.plan.neverDone = c.flip();
  r.script.resize(f.ports);
  int n = (int)c.weighted({1, 6, 3, 2, 1});
  int64_t total = totalSize(t) + 600;
  bool all = c.chance(1, 5);  // the same on every port
  struct Place { int port, conn, idx; Hostile h; };
  std::vector<Place> places;
  std::string what;
  bool fatal = false;
  for (int i = 0; i < n; i++) {
    int p = (int)c.draw(f.ports - 1), k = (int)c.weighted({4, 2, 1});
    Hostile h = genHostile(c, r, p);
    Step s;
    s.at = c.weighted({2, 1}) == 0 ? At::DONE : c.pick<At>({ACCEPTED, SETTINGS, MID});
    s.after = c.logRange(1, total);
    s.nth = s.at == At::DONE ? (int)c.weighted({5, 1}) : 0;
    s.instead = c.flip();
    s.next = c.pick<Next>({GO_ON, GO_ON, GO_ON, CLOSE, RESET, HANG, DRAIN});
    s.what = h.what;
    s.hasDone = h.hasDone;
    for (int q = 0; q < f.ports; q++) {
      if (q != p && !all) continue;
      auto& port = r.script[q];
      if ((int)port.size() <= k) port.resize(k + 1);
      // a connection after the first needs one before it that fails
      for (int j = 0; j < k; j++) if (port[j].steps.empty()) { Step d; d.at = At::DONE; d.what = "nothing"; d.next = CLOSE; port[j].steps.push_back(d); }
      port[k].steps.push_back(s);
      places.push_back({q, k, (int)port[k].steps.size() - 1, h});
    }
    // surely read as the answer, and the only one
    if (n == 1 && f.ports == 1 && k == 0 && s.at == At::DONE && s.nth == 0 && s.next == GO_ON && s.instead && r.w.plan.waits == 0 && f.rVer == f.sVer) fatal = h.fatal;
    what += h.what + "; ";
  }
  if (c.chance(1, 4)) {
    auto& port = r.script[c.draw(f.ports - 1)];
    if (port.empty()) port.resize(1);
    for (int i = (int)c.range(1, 3); i > 0; i--) { auto& cn = port[c.draw(port.size() - 1)]; cn.flips.push_back({(size_t)c.logRange(1, 200) - 1, (int)c.range(1, 255)}); }
    what += "flips";
    fatal = false;
  }
  c.note([&r, t, fatal] { return r.x.cfg.show() + "\nfiles: " + showTree(t) + "\nclaims " + std::to_string(r.w.plan.claims.size()) + (r.w.plan.neverDone ? " never DONE" : "") + " waits " + std::to_string(r.w.plan.waits) + (fatal ? " (must fail)\n" : "\n") + showScript(r); });
  auto fill = [&] {
    for (auto& p : places) {
      auto& st = r.script[p.port][p.conn].steps[p.idx];
      st.send = p.h.make(r, p.port);
    }
  };
  r.fillIn = fill;
  r.go(c, true, what);
  outcome(c, r);
  bool flips = false;
  for (auto& p : r.script) for (auto& k : p) flips |= !k.flips.empty();
  if (r.x.s.ok()) {
    PBT_CHECK(c, !fatal, "success after " << what);
    PBT_CHECK(c, r.w.dones > 0 || flips, "success although no peer ever said DONE (" << what << ")");
  }
  if (fatal) c.label("must fail");
  if (r.aborted) c.label("had to be aborted");
  if (r.w.conns > 0 && n > 0) c.nontrivial();
}

// ---------------------------------------------------------------- garbage
static void garbage(Case& c) {
  limits();
  Holder holder;
  Run& r = *holder.r;
  Cfg& f = r.x.cfg;
  genCfg(c, f, 3);
  Tree t = genSource(c, f);
  r.w.init(t, f.ports);
  r.script.resize(f.ports);
  bool hasDone = false;
  int v = f.sVer;
  for (int p = 0; p < f.ports; p++) {
    int n = (int)c.range(1, 4);
    for (int k = 0; k < n; k++) {
      Conn cn;
      int parts = (int)c.logRange(1, 12);
      for (int i = 0; i < parts; i++) {
        switch (c.draw(5)) {
          case 0: cn.raw += c.bytes(1, 60); break;
          case 1: cn.raw += c.pick<std::string>({"W", "H", "a", "D", "E", "A", "C", "\x01", "DD", "WD", "ED"}); break;
          case 2: cn.raw += localCp(c.flip() ? v : 32, {(int64_t)c.draw(65535), (int64_t)c.draw(3), (int64_t)c.draw(100), (int64_t)c.draw(5), (int64_t)c.draw(100)}); break;
          case 3: cn.raw += abortCmd((int)c.draw(40), (int)c.draw(255), c.i64()); break;
          case 4: cn.raw += errCmd(v, {{(int64_t)c.draw(65535), (int64_t)c.draw(3), 0, 0, 0}}); break;
          default: cn.raw += c.blob(c.logRange(1, 3000)); break;
        }
      }
      if (cn.raw.find('D') != std::string::npos) hasDone = true;
      cn.rawNext = c.pick<Next>({CLOSE, RESET, HANG, DRAIN, DRAIN});
      r.script[p].push_back(cn);
    }
  }
  r.maxConns = 4;
  c.note([&r, t] { return r.x.cfg.show() + "\nfiles: " + showTree(t) + "\n" + showScript(r); });
  // encrypted: whatever is sent decrypts to something
  if (f.enc != "none") hasDone = true;
  r.w.plan.neverDone = true;
  r.go(c, true, "garbage");
  outcome(c, r);
  if (r.x.s.ok()) PBT_CHECK(c, hasDone, "success although no peer ever said DONE");
  if (f.enc == "aes128gcm") PBT_CHECK(c, !r.x.s.ok(), "success with a peer that does not know the key");
  if (r.w.conns > 0) c.nontrivial();
}

int main(int argc, char** argv) {
  return pbt::main(argc, argv, "C27", {
    {"careful", careful, 900, 12000, 100, true, "faults, claims or missing answers, and the sender came to its end of data"},
    {"hostile", hostile, 1200, 16000, 100, true, "at least one hostile reply and a connection"},
    {"garbage", garbage, 400, 5000, 100, true, "at least one connection"},
  });
}
