// variant: asan
// libs: core
// workers: 48
// A receiver survives any peer: no crash, nothing outside its directory, an
// end within its timeouts, and no success without a complete session.
#include "common_e2e.h"
#include <folly/hash/Checksum.h>
#include <sys/resource.h>
#include <signal.h>
#include <wdt/Protocol.h>
using namespace e2e;
using pbt::Case;

// ---------------------------------------------------------------- wire
static void leb(std::string& s, uint64_t v) {
  while (v >= 0x80) { s += (char)(v | 0x80); v >>= 7; }
  s += (char)v;
}
static void lebStr(std::string& s, const std::string& x) { leb(s, x.size()); s += x; }
static const char FILE_C = 'L', DONE_C = 'D', SET_C = 'S', SIZE_C = 'Z', FOOT_C = 'F';
struct Hdr {
  std::string name;
  uint64_t seqId{0}, dataSize{0}, offset{0}, fileSize{0}, prev{0};
  int alloc{0};
};
struct Msg {
  char cmd{0};
  // settings
  uint64_t version{32}, rt{0}, wt{0};
  std::string id;
  int flags{0};
  // file
  Hdr h;
  int status{0};
  int lenDelta{0};      // announced header length minus the real one
  int rawLen{-1};       // or this one
  std::string data;
  bool footer{false};
  uint32_t sum{0};
  // done, size
  uint64_t blocks{0}, total{0};
  // instead of all that
  std::string raw;
  size_t cut{SIZE_MAX};  // only this many bytes of it
  std::string enc(int ver) const {
    std::string s;
    if (!raw.empty()) s = raw;
    else {
      s += cmd;
      if (cmd == SET_C) {
        leb(s, version);
        leb(s, rt);
        leb(s, wt);
        lebStr(s, id);
        if (ver >= 12) s += (char)flags;
      } else if (cmd == FILE_C) {
        s += (char)status;
        s += "  ";
        lebStr(s, h.name);
        leb(s, h.seqId);
        leb(s, h.dataSize);
        leb(s, h.offset);
        leb(s, h.fileSize);
        if (ver >= 13) { s += (char)h.alloc; if ((h.alloc & 7) == EXISTS_TOO_LARGE || (h.alloc & 7) == EXISTS_TOO_SMALL) leb(s, h.prev); }
        uint16_t l = rawLen >= 0 ? rawLen : s.size() + lenDelta;
        s[2] = (char)l;
        s[3] = (char)(l >> 8);
        s += data;
        if (footer) { std::string f(1, FOOT_C); leb(f, ((uint64_t)(int64_t)(int32_t)sum << 1) ^ (uint64_t)((int64_t)(int32_t)sum >> 63)); s += f; }
      } else if (cmd == DONE_C) {
        s += (char)status;
        leb(s, blocks);
        if (ver >= 16) leb(s, total);
        s.resize(Protocol::kMinBufLength, '\0');
      } else if (cmd == SIZE_C) leb(s, total);
    }
    if (cut < s.size()) s.resize(cut);
    return s;
  }
  std::string show() const {
    std::ostringstream o;
    if (!raw.empty()) o << "raw " << pbt::show(raw, 60) << "(" << raw.size() << ")";
    else switch (cmd) {
      case SET_C: o << "SETTINGS v" << version << " rt " << rt << " wt " << wt << " id " << pbt::show(id, 30) << " flags " << flags; break;
      case FILE_C: o << "FILE " << pbt::show(h.name, 60) << "(" << h.name.size() << ") seq " << h.seqId << " [" << h.offset << "+" << h.dataSize << "/" << h.fileSize << "] alloc " << h.alloc << " prev " << h.prev << " status " << status;
        if (lenDelta || rawLen >= 0) o << " headerLen " << lenDelta << "/" << rawLen;
        if (data.size() != h.dataSize) o << " with " << data.size() << " bytes";
        break;
      case DONE_C: o << "DONE " << status << " " << blocks << " " << total; break;
      case SIZE_C: o << "SIZE " << total; break;
      default: o << "cmd " << (int)cmd;
    }
    if (cut != SIZE_MAX) o << " cut at " << cut;
    return o.str();
  }
};
enum Tail { EXPECT_DONE, CLOSE, RESET, SHUT, HANG };
static const char* tailName(int t) { static const char* n[] = {"expect DONE", "close", "reset", "shutdown", "hang"}; return n[t]; }
struct Conn {
  std::vector<Msg> msgs;
  std::string rawPrefix;            // sent without the socket's encryption, instead of everything
  Tail tail{EXPECT_DONE};
  int pauseAt{-1}, pauseMs{0};      // before message
  int doneAgain{1};                 // answers to checkpoints
  std::vector<std::pair<size_t, int>> flips;  // byte edits of the encoded stream: position, xor (256: delete, 257: insert, 258: duplicate 40 bytes)
  bool expectChunks{false};
};
struct PortScript { std::vector<Conn> conns; };

struct Client {
  WdtOptions opts;
  std::atomic<bool> stop{false};
  struct Stop : IAbortChecker { std::atomic<bool>* s; bool shouldAbort() const override { return *s; } } chk;
  std::string host{"127.0.0.1"};
  EncryptionParams enc;
  int64_t iv{0};
  std::atomic<int> sentDone{0}, completed{0}, connects{0};
  std::mutex m;
  std::set<uint64_t> claimed;
  Client() { chk.s = &stop; }
  int rd(ClientSocket& s, char* b, int n) { return s.readWithTimeout(b, n, 300, true); }
  // next command byte that is not a keep-alive
  int nextCmd(ClientSocket& s, double until) {
    while (now() < until && !stop) {
      char b;
      int k = s.readWithTimeout(&b, 1, 300, true);
      if (k == 0) return -1;
      if (k < 0) { if (s.getReadErrCode() == WDT_TIMEOUT) continue; return -1; }
      if (b == 'W' || b == 'H') continue;
      if (b == 1) { char x[200]; if (rd(s, x, Protocol::getMaxLocalCheckpointLength(32) - 1) <= 0) return -1; continue; }
      return (unsigned char)b;
    }
    return -1;
  }
  static void reset(int fd) { linger l{1, 0}; if (fd >= 0) setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
  bool expectChunks(ClientSocket& s) {
    int c = nextCmd(s, now() + 1.5);
    if (c == 'a') return true;
    if (c != 'C') return false;
    int64_t h[2];
    if (rd(s, (char*)h, 16) != 16) return false;
    // lists until the announced number of entries was decoded: they fit one list here
    int64_t got = 0;
    while (got < h[1]) {
      int32_t n;
      if (rd(s, (char*)&n, 4) != 4 || n < 0 || n > (1 << 22)) return false;
      std::string b(n, 0);
      if (n && rd(s, &b[0], n) != n) return false;
      std::vector<FileChunksInfo> v;
      int64_t off = 0;
      if (!Protocol::decodeFileChunksInfoList(&b[0], off, n, v) || v.empty()) return false;
      got += v.size();
    }
    char a = 'a';
    return s.write(&a, 1) == 1;
  }
  void run(int port, int ver, const PortScript& p) {
    ThreadCtx ctx(opts, false);
    ctx.setAbortChecker(&chk);
    for (auto& cn : p.conns) {
      if (stop) return;
      connects++;
      if (!cn.rawPrefix.empty()) { raw(port, cn); continue; }
      ClientSocket s(ctx, host, port, enc, iv);
      if (s.connect() != OK) { msleep(20); continue; }
      std::string pend;
      bool dead = false;
      auto flush = [&] {
        size_t o = 0;
        while (o < pend.size() && !dead) {
          int n = (int)std::min<size_t>(pend.size() - o, 65536);
          if (s.write(&pend[o], n) != n) dead = true;
          o += n;
        }
        pend.clear();
      };
      if (cn.flips.empty()) {
        for (size_t i = 0; i < cn.msgs.size() && !dead; i++) {
          auto& x = cn.msgs[i];
          if ((int)i == cn.pauseAt) { flush(); msleep(cn.pauseMs); }
          std::string e = x.enc(ver);
          if (x.cmd == DONE_C && x.raw.empty()) { sentDone++; std::lock_guard<std::mutex> g(m); claimed.insert(x.blocks); }
          bool chunks = x.cmd == SET_C && x.raw.empty() && (x.flags & 2) && cn.expectChunks;
          if (chunks) {
            e.resize(std::max<size_t>(e.size(), Protocol::kMinBufLength), '\0');
            pend += e;
            flush();
            if (!expectChunks(s)) dead = true;
          } else pend += e;
          if (pend.size() > 200000) flush();
        }
      } else {
        for (auto& x : cn.msgs) {
          pend += x.enc(ver);
          if (x.cmd == DONE_C) sentDone++;
        }
        for (auto& f : cn.flips) {
          if (pend.empty()) break;
          size_t q = f.first % pend.size();
          if (f.second < 256) pend[q] ^= (char)f.second;
          else if (f.second == 256) pend.erase(q, 1);
          else if (f.second == 257) pend.insert(q, 1, (char)(f.first >> 8));
          else pend.insert(q, pend.substr(q, 40));
        }
      }
      flush();
      int again = cn.doneAgain;
      if (!dead && cn.tail == EXPECT_DONE) {
        double until = now() + 4;
        while (true) {
          int c = nextCmd(s, until);
          if (c == 'D') {
            char d = 'D';
            s.write(&d, 1);
            s.shutdownWrites();
            s.expectEndOfStream();
            completed++;
            break;
          }
          if (c == 'E') {
            int16_t l;
            if (rd(s, (char*)&l, 2) != 2 || l < 0) break;
            std::string b(l, 0);
            if (l && rd(s, &b[0], l) != l) break;
            if (!again--) break;
            std::string e = cn.msgs.empty() ? std::string(300, 'x') : cn.msgs.back().enc(ver);
            if (s.write(&e[0], (int)e.size()) != (int)e.size()) break;
            continue;
          }
          break;
        }
      } else if (!dead) {
        if (cn.tail == SHUT) { shutdown(s.getFd(), SHUT_WR); nextCmd(s, now() + 1); }
        if (cn.tail == HANG) for (double t = now(); now() - t < 1.2 && !stop;) msleep(10);
        if (cn.tail == RESET) reset(s.getFd());
      }
      s.closeNoCheck();
    }
  }
  void raw(int port, const Conn& cn) {
    int s = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    fcntl(s, F_SETFL, O_NONBLOCK);
    bool up = connect(s, (sockaddr*)&a, sizeof a) == 0;
    if (!up && errno == EINPROGRESS) {  // nobody accepts once the receiver is done
      pollfd pf{s, POLLOUT, 0};
      int err = 0;
      socklen_t l = sizeof err;
      up = poll(&pf, 1, 500) > 0 && getsockopt(s, SOL_SOCKET, SO_ERROR, &err, &l) == 0 && err == 0;
    }
    fcntl(s, F_SETFL, 0);
    if (up) {
      timeval tv{0, 700000};
      setsockopt(s, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
      size_t o = 0;
      while (o < cn.rawPrefix.size()) {
        ssize_t k = send(s, cn.rawPrefix.data() + o, cn.rawPrefix.size() - o, MSG_NOSIGNAL);
        if (k <= 0) break;
        o += k;
      }
      if (cn.tail == SHUT) shutdown(s, SHUT_WR);
      if (cn.tail == SHUT || cn.tail == EXPECT_DONE) { timeval r{0, 300000}; setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &r, sizeof r); char b[500]; (void)recv(s, b, sizeof b, 0); }
      if (cn.tail == HANG) for (double t = now(); now() - t < 1.2 && !stop;) msleep(10);
      if (cn.tail == RESET) reset(s);
    } else msleep(20);
    close(s);
  }
};

// ---------------------------------------------------------------- the receiver and what is around it
struct World {
  std::string root, dst;
  std::map<std::string, std::string> before;
  void make(Case& c) {
    root = c.scratch();
    dst = root + "/a/b/dst";
    mkdirs(dst);
    writeFile(root + "/s0", "sentinel 0");
    writeFile(root + "/a/s1", "sentinel 1");
    writeFile(root + "/a/b/s2", "sentinel 2");
    writeFile(root + "/a/b/dst2/x", "sentinel 3");
    writeFile(root + "/a/b/dstx", "sentinel 4");
    before = outside();
  }
  std::map<std::string, std::string> outside() {
    std::map<std::string, std::string> all, r;
    snapshot(root, "", all, true);
    for (auto& e : all) if (e.first != "a/b/dst" && e.first.compare(0, 8, "a/b/dst/")) r[e.first] = e.second;
    return r;
  }
  void check(Case& c, const std::string& what) {
    auto after = outside();
    for (auto& e : before) {
      auto it = after.find(e.first);
      PBT_CHECK(c, it != after.end(), "removed outside the destination: " << e.first << " (" << what << ")");
      PBT_CHECK(c, it->second == e.second, "altered outside the destination: " << e.first << " (" << what << ")");
    }
    for (auto& e : after) PBT_CHECK(c, before.count(e.first), "created outside the destination: " << pbt::show(e.first) << " (" << what << ")");
  }
};
static void limits() {
  rlimit l{16 << 20, RLIM_INFINITY};
  getrlimit(RLIMIT_FSIZE, &l);
  l.rlim_cur = 16 << 20;
  setrlimit(RLIMIT_FSIZE, &l);
  signal(SIGXFSZ, SIG_IGN);
}
static void genCfg(Case& c, Cfg& f, World& w) {
  f.ports = (int)c.logRange(1, 3);
  f.checksum = c.flip();
  f.enc = c.flip() ? "none" : genEnc(c);
  f.tagInterval = c.flip() ? 4194304 : (int)c.logRange(1, 5000);
  f.bufSize = c.flip() ? 262144 : (int)c.logRange(1, 20000);
  f.noPrealloc = c.chance(1, 3);
  f.overwrite = c.flip();
  f.deleteExtra = c.flip();
  f.resume = c.chance(1, 3);
  f.dirTree = f.resume && c.flip();
  if (f.dirTree) f.noPrealloc = true;
  f.keepLog = c.flip();
  f.compaction = c.flip();
  f.fsync = false;
  f.heartBeat = c.flip();
  f.syncMb = c.flip() ? 0.5 : 0;
  f.readTimeout = f.writeTimeout = 500;
  f.acceptWindow = 1500;
  f.maxAcceptRetries = 15;
  f.drainMs = 50;
  f.abortCheck = 20;
  if (c.chance(1, 4)) f.rVer = (int)c.range(f.enc == "none" ? 10 : 23, 32);
  // something is there already
  for (int k = c.chance(1, 2) ? (int)c.range(1, 3) : 0; k > 0; k--) writeFile(w.dst + "/old" + std::to_string(k), c.blob(c.logRange(1, 3000)));
  if (c.chance(1, 3)) mkdirs(w.dst + "/dir/sub");
}
struct Run {
  World w;
  Client cl;
  Session x;
  std::vector<PortScript> ports;
  std::thread fin;
  std::atomic<bool> done{false};
  std::vector<std::thread> th;
  ~Run() {
    cl.stop = true;
    for (auto& t : th) if (t.joinable()) t.join();
    if (fin.joinable()) { x.receiver->abort(ABORTED_BY_APPLICATION); fin.join(); }
  }
  // false if it had to be aborted
  bool go(Case& c, bool mayWait, const std::string& what) {
    x.dst = w.dst;
    x.recoveryId = "rec";
    ErrorCode e = x.startReceiver();
    PBT_EQ(c, (int)e, (int)OK, "the receiver did not start");
    x.cfg.apply(cl.opts);
    cl.opts.connect_timeout_millis = 1000;
    cl.enc = x.req.encryptionData;
    cl.iv = x.req.ivChangeInterval;
    double t0 = now();
    for (size_t i = 0; i < ports.size(); i++)
      th.emplace_back([this, i] { cl.run(x.req.ports[i], x.cfg.rVer, ports[i]); });
    fin = std::thread([this] { x.finishReceiver(); done = true; });
    for (auto& t : th) t.join();
    th.clear();
    double t1 = now();
    // accept retries, accept window, read timeouts of threads which wait for each other
    double bound = mayWait ? 2 : 12;
    while (!done && now() - t1 < bound) msleep(5);
    bool alone = done;
    if (!done) {
      PBT_CHECK(c, mayWait, "still running " << now() - t1 << " s after its last peer left (" << what << ")");
      x.receiver->abort(ABORTED_BY_APPLICATION);
      double t2 = now();
      while (!done && now() - t2 < 5) msleep(5);
      PBT_CHECK(c, done, "still running " << now() - t2 << " s after it was aborted (" << what << ")");
    }
    fin.join();
    (void)t0;
    return alone;
  }
};

// ---------------------------------------------------------------- honest sessions
struct Honest {
  Tree files;
  int64_t nBlocks{0}, total{0};
};
static Msg settings(const Cfg& f, bool chunks) {
  Msg m;
  m.cmd = SET_C;
  m.version = f.rVer;
  m.rt = m.wt = 600;
  m.id = "vt";
  m.flags = (f.checksum ? 1 : 0) | (chunks ? 2 : 0) | (f.heartBeat ? 8 : 0);
  return m;
}
static Msg block(const Cfg& f, const std::string& name, int64_t seq, const std::string& content, int64_t off, int64_t n) {
  Msg m;
  m.cmd = FILE_C;
  m.h.name = name;
  m.h.seqId = seq;
  m.h.dataSize = n;
  m.h.offset = off;
  m.h.fileSize = content.size();
  m.data = content.substr(off, n);
  if (f.checksum && f.rVer >= 12) { m.footer = true; m.sum = folly::crc32c((const uint8_t*)m.data.data(), n, 0); }
  return m;
}
static void genHonest(Case& c, Run& r, Honest& h) {
  Cfg& f = r.x.cfg;
  if (f.rVer < 12) f.checksum = false;  // the flag does not exist yet
  bool chunks = f.resume && f.rVer >= 12 && c.flip();
  r.ports.resize(f.ports);
  for (auto& p : r.ports) {
    Conn cn;
    cn.msgs.push_back(settings(f, chunks));
    cn.expectChunks = chunks;
    if (c.chance(1, 3)) { Msg s; s.cmd = SIZE_C; s.total = c.draw(5000); cn.msgs.push_back(s); }
    p.conns.push_back(cn);
  }
  int n = (int)c.range(1, 5);
  for (int i = 0; i < n; i++) {
    std::string name = std::string(c.flip() ? "" : c.flip() ? "d/" : "dir/sub/e/") + "f" + std::to_string(i);
    int64_t size = c.chance(1, 6) ? 0 : c.logRange(1, c.chance(1, 5) ? 400000 : 6000);
    std::string content = c.blob(size);
    h.files[name] = content;
    int64_t bs = c.flip() ? size : std::max<int64_t>(1, std::max<int64_t>(size / 5, (int64_t)c.logRange(1, size + 1)));
    for (int64_t off = 0; off < std::max<int64_t>(size, 1); off += std::max<int64_t>(bs, 1)) {
      int64_t k = std::min(bs, size - off);
      r.ports[c.draw(f.ports - 1)].conns[0].msgs.push_back(block(f, name, i + 100, content, off, k));
      h.nBlocks++;
      h.total += k;
    }
  }
  for (auto& p : r.ports) {
    Msg d;
    d.cmd = DONE_C;
    d.blocks = h.nBlocks;
    d.total = h.total;
    p.conns[0].msgs.push_back(d);
  }
}
static std::string showScripts(const Run& r) {
  std::ostringstream o;
  for (size_t i = 0; i < r.ports.size(); i++)
    for (auto& cn : r.ports[i].conns) {
      o << "port " << i << ":";
      if (!cn.rawPrefix.empty()) o << " raw bytes " << pbt::show(cn.rawPrefix, 80) << "(" << cn.rawPrefix.size() << ")";
      else for (auto& m : cn.msgs) o << " " << m.show() << ";";
      for (auto& f : cn.flips) o << " edit@" << f.first << ":" << f.second;
      if (cn.pauseAt >= 0) o << " pause " << cn.pauseMs << " before " << cn.pauseAt;
      o << " " << tailName(cn.tail) << "\n";
    }
  return o.str();
}

// ---------------------------------------------------------------- hostile changes
static uint64_t badNum(Case& c, uint64_t honest) {
  switch (c.draw(6)) {
    case 0: return honest + 1;
    case 1: return 0;
    case 2: return c.u64();
    case 3: return (uint64_t)INT64_MAX - c.draw(3);
    case 4: return (1ull << c.range(30, 62)) + c.draw(2);
    case 5: return honest ? honest - 1 : 1;
    default: return ~0ull - c.draw(2);
  }
}
struct Change { std::string what; bool fatal{false}; };
// the peer never gets a session complete which contains this name
static std::string badName(Case& c, bool& fatal, const std::string& honest) {
  fatal = true;
  std::string leaf = c.pick<std::string>({"s2", "evil", "s1", "dst2/x", "dstx", "s0", "newdir/evil"});
  switch (c.draw(11)) {
    case 0: return "";
    case 1: return "/" + honest;
    case 2: return honest + "/";
    case 3: return "../" + leaf;
    case 4: return "../../" + leaf;
    case 5: return "../../../" + leaf;
    case 6: return "q/../../" + leaf;
    case 7: return c.pick<std::string>({"..", "../", "/", "d/..", "d/../..", "d/../f9", "//", "d/../../dst/f9"});
    case 8: return honest + std::string(1, '\0') + "x";
    case 9: {
      if (c.flip()) return std::string(c.range(256, 4000), 'n');
      std::string s;
      for (int k = (int)c.range(2048, 15000); k > 0; k--) s += "a/";
      return s + "x";
    }
    case 10: fatal = false; return c.pick<std::string>({".wdt.log", ".wdt.log.bug", "dir", "old1", ".", "./x", "d//x", "...", "..x", "x..", "dir/sub"});
    default: fatal = false; return c.bytes(1, 60);
  }
}
static bool anyHuge = false;
static Change mutate(Case& c, Run& r, Honest& h, int pi) {
  Cfg& f = r.x.cfg;
  auto& cn = r.ports[pi].conns.back();
  auto& ms = cn.msgs;
  std::vector<size_t> blocks;
  for (size_t i = 0; i < ms.size(); i++) if (ms[i].cmd == FILE_C && ms[i].raw.empty()) blocks.push_back(i);
  Change ch;
  int kind = (int)c.weighted({8, 5, 4, 4, 3, 2, 4, 2, 3, 2, 2, 2, 4, 2, 2});
  if (blocks.empty() && (kind <= 2 || kind == 4 || kind == 6 || kind == 8 || kind == 9)) kind = 3;
  size_t b = blocks.empty() ? 0 : blocks[c.draw(blocks.size() - 1)];
  std::ostringstream o;
  switch (kind) {
    case 0: {
      ms[b].h.name = badName(c, ch.fatal, ms[b].h.name);
      if (c.chance(1, 4) && f.rVer >= 13) {  // to be deleted
        ms[b].h.alloc = TO_BE_DELETED;
        ms[b].h.dataSize = ms[b].h.fileSize = ms[b].h.offset = 0;
        ms[b].data.clear();
        ms[b].sum = folly::crc32c((const uint8_t*)"", 0, 0);
        o << "delete ";
      }
      o << "name " << pbt::show(ms[b].h.name, 60);
      break;
    }
    case 1: {
      auto& x = ms[b].h;
      auto was = x;
      switch (c.draw(5)) {
        case 0: x.offset = badNum(c, x.offset); break;
        case 1: x.fileSize = badNum(c, x.fileSize); break;
        case 2: x.dataSize = badNum(c, x.dataSize); break;
        case 3: x.seqId = badNum(c, x.seqId); break;
        case 4: x.prev = badNum(c, x.prev); break;
        default: x.offset = badNum(c, x.offset); x.fileSize = badNum(c, x.fileSize); break;
      }
      // the data do not fit the file, or a number is not one
      ch.fatal = x.offset > INT64_MAX || x.fileSize > INT64_MAX || x.dataSize > INT64_MAX || x.seqId > INT64_MAX || x.offset > x.fileSize || x.dataSize > x.fileSize - x.offset;
      o << "numbers of " << ms[b].show();
      break;
    }
    case 2:
      if (f.rVer < 13) { ms[b].rawLen = 1; ch.fatal = true; o << "header length 1"; break; }
      ms[b].h.alloc = (int)c.range(0, 7) | (c.chance(1, 4) ? 8 : 0);
      ms[b].h.prev = badNum(c, 100);
      if ((ms[b].h.alloc & 7) > TO_BE_DELETED) ch.fatal = true;
      if ((ms[b].h.alloc & 7) == TO_BE_DELETED && (ms[b].h.dataSize || ms[b].h.fileSize)) ch.fatal = true;
      if ((ms[b].h.alloc & 7) == 2 && ms[b].h.prev > INT64_MAX) ch.fatal = true;
      o << "allocation status " << ms[b].h.alloc;
      break;
    case 3: {
      size_t k = 0;
      while (k < ms.size() && ms[k].cmd != SET_C) k++;
      if (k == ms.size()) { o << "none"; break; }
      auto& s = ms[k];
      switch (c.draw(8)) {
        case 0: s.rt = c.pick<uint64_t>({0, 0, 1, INT32_MAX, (uint64_t)INT32_MAX - 999, (uint64_t)INT32_MAX + 1, ~0ull}); break;
        case 1: s.wt = c.pick<uint64_t>({0, 0, 1, INT32_MAX, (uint64_t)INT32_MAX - 1000, (uint64_t)INT32_MAX + 1, ~0ull}); break;
        case 2: s.rt = s.wt = 0; break;
        case 3: s.id = c.pick<std::string>({"", "vu", "vt ", std::string(1024, 'v'), std::string(1025, 'v'), std::string(5000, 'v')}); ch.fatal = !blocks.empty(); break;
        case 4: s.version = c.pick<uint64_t>({0, 1, 9, (uint64_t)f.rVer + 1, (uint64_t)f.rVer - 1, 1000, INT32_MAX, (uint64_t)INT32_MAX + 1, ~0ull}); break;
        case 5: s.flags = (int)c.draw(255); break;
        case 6: s.flags ^= 2; break;
        case 7: s.rt = s.wt = INT32_MAX; break;
        default: s.flags ^= 1 << c.draw(7); break;
      }
      if (s.rt > 3000 || s.wt > 3000) anyHuge = true;
      o << s.show();
      break;
    }
    case 4:
      if (c.flip()) ms[b].lenDelta = (int)c.pick<int64_t>({-1, 1, -4, 5, 200, 4000});
      else ms[b].rawLen = (int)c.pick<int64_t>({0, 1, 3, 32767, 32768, 65535, 4000});
      ch.fatal = ms[b].enc(f.rVer).compare(0, 4, [&] { Msg y = ms[b]; y.lenDelta = 0; y.rawLen = -1; return y.enc(f.rVer); }(), 0, 4) != 0;
      o << "header length " << ms[b].lenDelta << "/" << ms[b].rawLen;
      break;
    case 5: {
      size_t k = c.draw(ms.size() - 1);
      Msg x;
      x.raw = std::string(1, (char)c.draw(255)) + c.bytesN(c.logRange(1, 600));
      ms.insert(ms.begin() + k, x);
      o << "garbage command before message " << k;
      break;
    }
    case 6: {
      size_t k = c.draw(ms.size() - 1);
      size_t n = ms[k].enc(f.rVer).size();
      ms[k].cut = c.flip() ? c.draw(n - 1) : std::min<size_t>(n - 1, c.logRange(0, 60));
      ms.resize(k + 1);
      cn.tail = c.pick<Tail>({CLOSE, RESET, SHUT, HANG, EXPECT_DONE});
      ch.fatal = blocks.back() >= k;
      o << "stream ends in message " << k << " after " << ms[k].cut << " bytes, " << tailName(cn.tail);
      break;
    }
    case 7: {
      size_t k = c.draw(ms.size() - 1);
      cn.pauseAt = (int)k;
      cn.pauseMs = c.flip() ? 700 : (int)c.logRange(1, 1300);
      o << "pause of " << cn.pauseMs << " ms before message " << k;
      break;
    }
    case 8: {
      size_t at = c.draw(ms.size() - 1);
      Msg x = ms[b];
      ms.insert(ms.begin() + at, x);
      o << "message " << b << " again before " << at;
      ch.fatal = true;
      break;
    }
    case 9: ms.erase(ms.begin() + b); ch.fatal = true; o << "message " << b << " missing"; break;
    case 10: {  // order
      size_t i = c.draw(ms.size() - 1), j = c.draw(ms.size() - 1);
      std::swap(ms[i], ms[j]);
      o << "messages " << i << " and " << j << " swapped";
      break;
    }
    case 11: {
      size_t k = 0;
      while (k < ms.size() && ms[k].cmd != SET_C) k++;
      if (k < ms.size()) ms.erase(ms.begin() + k);
      ch.fatal = !blocks.empty();
      o << "no settings";
      break;
    }
    case 12: {  // all DONEs
      int what = (int)c.draw(3);
      uint64_t v = badNum(c, what ? h.total : h.nBlocks);
      int st = (int)c.range(1, 255);
      bool same = what == 0 ? v == (uint64_t)h.nBlocks : what == 1 ? v == (uint64_t)h.total : false;
      for (auto& p : r.ports)
        for (auto& m : p.conns.back().msgs) if (m.cmd == DONE_C && m.raw.empty()) {
          if (what == 0) m.blocks = v;
          else if (what == 1) m.total = v;
          else m.status = st;
        }
      ch.fatal = !same && (what != 1 || f.rVer >= 16);
      o << (what == 0 ? "DONE blocks " : what == 1 ? "DONE bytes " : "DONE status ") << (what > 1 ? (uint64_t)st : v);
      break;
    }
    case 13: {
      int n = (int)c.logRange(1, 3000);
      Msg s;
      s.cmd = SIZE_C;
      s.total = badNum(c, 5);
      if (s.total > INT64_MAX) s.total = 7;
      if (c.chance(1, 3)) { s = settings(f, false); s.rt = s.wt = 600; n = n / 10 + 1; }
      std::string all;
      if (c.flip()) {  // more than the receiver's buffer
        size_t buf = std::max<size_t>((f.bufSize + 4095) / 4096 * 4096, 8192);
        if (buf < 50000 || c.chance(1, 4)) n = (int)((buf + c.draw(600)) / s.enc(f.rVer).size());
      }
      for (int i = 0; i < n; i++) all += s.enc(f.rVer);
      Msg x;
      x.raw = all;
      x.cmd = s.cmd;
      ms.insert(ms.begin() + c.draw(ms.size() - 1), x);
      o << n << " times " << s.show();
      break;
    }
    default:
      if (!blocks.empty() && ms[b].footer) {
        ms[b].sum = c.flip() ? ms[b].sum + 1 : (uint32_t)c.u64();
        ch.fatal = ms[b].sum != folly::crc32c((const uint8_t*)ms[b].data.data(), ms[b].data.size(), 0);
        o << "footer " << ms[b].sum;
      } else if (!blocks.empty()) { ms[b].data += c.bytes(1, 400); o << "too much data"; }
      else o << "none";
  }
  ch.what = "port " + std::to_string(pi) + ": " + o.str();
  return ch;
}
static void verdict(Case& c, Run& r, bool mustFail, const std::string& what) {
  r.w.check(c, what);
  const Rep& rep = r.x.r;
  c.label(rep.ok() ? "success" : errorCodeToStr(rep.code));
  if (rep.ok()) {
    PBT_CHECK(c, !mustFail, "success reported (" << what << "); " << rep.show());
    PBT_CHECK(c, r.cl.sentDone > 0, "success reported although nobody said DONE (" << what << "); " << rep.show());
  }
}

static void hostile(Case& c) {
  limits();
  anyHuge = false;
  Run r;
  r.w.make(c);
  genCfg(c, r.x.cfg, r.w);
  Honest h;
  genHonest(c, r, h);
  int k = (int)c.weighted({1, 12, 4, 2});
  std::string what;
  bool fatal = false;
  for (int i = 0; i < k; i++) {
    int pi = (int)c.draw(r.ports.size() - 1);
    if (i && c.chance(1, 3)) {  // a later connection
      Conn cn = r.ports[pi].conns[0];
      cn.tail = EXPECT_DONE;
      cn.pauseAt = -1;
      r.ports[pi].conns.push_back(cn);
    }
    auto ch = mutate(c, r, h, pi);
    what += ch.what + ". ";
    if (k == 1) fatal = ch.fatal;
  }
  Session& x = r.x;
  c.note([&] { return x.cfg.show() + "\n" + what + (fatal ? "(must fail)\n" : "\n") + showScripts(r); });
  bool alone = r.go(c, anyHuge, what);
  if (!alone) c.label("waits as it was told to");
  c.note([&] { return x.r.show(); });
  verdict(c, r, fatal, what);
  if (k == 0) {
    PBT_CHECK(c, x.r.ok(), "an honest session was not accepted: " << x.r.show());
    auto t = readTree(r.w.dst);
    auto d = diffTrees(h.files, t, true);
    PBT_CHECK(c, d.empty(), "after an honest session: " << d);
    PBT_EQ(c, x.r.blocks, h.nBlocks, "blocks");
    c.label("control");
  } else c.nontrivial();
}

// ---------------------------------------------------------------- edited bytes, inside the encryption
static void edited(Case& c) {
  limits();
  Run r;
  r.w.make(c);
  genCfg(c, r.x.cfg, r.w);
  Honest h;
  genHonest(c, r, h);
  for (auto& p : r.ports) {
    auto& cn = p.conns[0];
    if (r.ports.size() > 1 && c.chance(1, 3)) continue;
    size_t n = 0;
    std::vector<size_t> starts;
    for (auto& m : cn.msgs) { starts.push_back(n); n += m.enc(r.x.cfg.rVer).size(); }
    for (int k = (int)c.logRange(1, 6); k > 0; k--) {
      size_t at = c.flip() ? starts[c.draw(starts.size() - 1)] + c.logRange(0, 40) : c.draw(n - 1);
      int op = c.flip() ? 1 << c.draw(7) : c.flip() ? (int)c.range(1, 255) : (int)c.range(256, 258);
      cn.flips.push_back({at, op});
    }
    cn.tail = c.pick<Tail>({EXPECT_DONE, EXPECT_DONE, SHUT, CLOSE});
    if (c.chance(1, 3)) p.conns.push_back(cn);
  }
  Session& x = r.x;
  c.note([&] { return x.cfg.show() + "\n" + showScripts(r); });
  // an edited settings message may ask for long timeouts
  bool alone = r.go(c, true, "edited bytes");
  if (!alone) c.label("aborted");
  c.note([&] { return x.r.show(); });
  verdict(c, r, false, "edited bytes");
  c.nontrivial();
}

// ---------------------------------------------------------------- anything at all, below the encryption
static void garbage(Case& c) {
  limits();
  Run r;
  r.w.make(c);
  genCfg(c, r.x.cfg, r.w);
  Cfg& f = r.x.cfg;
  r.ports.resize(f.ports);
  bool fits = false;  // complete messages may have been sent
  for (auto& p : r.ports)
    for (int k = (int)c.logRange(1, 4) - (f.ports > 1 && c.chance(1, 4)); k > 0; k--) {
      Conn cn;
      cn.tail = c.pick<Tail>({EXPECT_DONE, CLOSE, RESET, SHUT, HANG});
      std::string s;
      switch (c.draw(4)) {
        case 0: s = c.bytes(1, 400); break;
        case 1: s = c.blob(c.logRange(1, 60000)); break;
        case 2: {  // a correct beginning
          s = settings(f, c.flip()).enc(f.rVer);
          if (c.flip()) { s += block(f, "f", 1, c.blob(300), 0, 200).enc(f.rVer); fits = true; }
          if (c.flip()) s.resize(c.draw(s.size()));
          s += c.blob(c.logRange(0, 3000));
          break;
        }
        case 3: {  // encryption settings
          s += 'e';
          s += (char)c.range(0, 4);
          std::string iv = c.bytesN(c.flip() ? 16 : c.draw(40));
          lebStr(s, iv);
          std::string t = c.bytesN(4);
          s += t;
          s += c.blob(c.logRange(1, 3000));
          break;
        }
        default: {
          char b = c.pick<char>({'S', 'L', 'D', 'Z', 'e', 'F', 'C', 'E', 'a', 1});
          s = std::string(c.logRange(1, 2000), b);
          for (int e = (int)c.draw(20); e > 0; e--) s[c.draw(s.size() - 1)] = (char)c.draw(255);
        }
      }
      if (s.empty()) s = "x";
      cn.rawPrefix = s;
      p.conns.push_back(cn);
    }
  Session& x = r.x;
  c.note([&] { return x.cfg.show() + "\n" + showScripts(r); });
  bool alone = r.go(c, true, "garbage");
  if (!alone) c.label("aborted");
  c.note([&] { return x.r.show(); });
  r.w.check(c, "garbage");
  c.label(x.r.ok() ? "success" : errorCodeToStr(x.r.code));
  PBT_CHECK(c, !x.r.ok(), "success after garbage; " << x.r.show());
  (void)fits;
  if (r.cl.connects > 0) c.nontrivial();
}

int main(int argc, char** argv) {
  return pbt::main(argc, argv, "C26", {
    {"hostile", hostile, 1200, 15000, 60, true, "at least one message of the session was not honest"},
    {"edited", edited, 600, 8000, 60, true, "bytes of an honest session were altered"},
    {"garbage", garbage, 600, 8000, 60, true, "something connected"},
  });
}
