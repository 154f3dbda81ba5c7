#pragma once
// Whole transfers: a Sender and a Receiver in this process over loopback TCP,
// optionally through a forwarder that cuts, stalls or corrupts connections.
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>
#include <wdt/Receiver.h>
#include <wdt/Sender.h>
#include <wdt/util/ClientSocket.h>
#include <atomic>
#include <chrono>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <thread>
#include "common_tree.h"
#include "pbt.h"
namespace e2e {
using namespace facebook::wdt;
using Tree = std::map<std::string, std::string>;  // relative path -> content
inline double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
inline void msleep(double ms) { if (ms > 0) usleep((useconds_t)(ms * 1000)); }

// ---------------------------------------------------------------- trees
inline void mkdirs(const std::string& path) {
  for (size_t i = 1; i <= path.size(); i++)
    if (i == path.size() || path[i] == '/') mkdir(path.substr(0, i).c_str(), 0755);
}
inline void writeFile(const std::string& path, const std::string& s) {
  size_t k = path.rfind('/');
  if (k != std::string::npos) mkdirs(path.substr(0, k));
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) throw std::runtime_error("harness: cannot create " + path + ": " + strerror(errno));
  size_t off = 0;
  while (off < s.size()) {
    ssize_t k2 = ::write(fd, s.data() + off, s.size() - off);
    if (k2 <= 0) { ::close(fd); throw std::runtime_error("harness: write failed: " + path); }
    off += k2;
  }
  ::close(fd);
}
inline void writeTree(const std::string& dir, const Tree& t) {
  mkdirs(dir);
  for (auto& e : t) writeFile(dir + "/" + e.first, e.second);
}
// regular files only, without the transfer log
inline Tree readTree(const std::string& dir) {
  Tree all, r;
  snapshot(dir, "", all, true);
  for (auto& e : all) {
    if (e.first.back() == '/') continue;
    if (e.first == ".wdt.log" || e.first == ".wdt.log.bug") continue;
    if (e.second[0] == 'f') r[e.first] = e.second.substr(1);
    else r[e.first] = e.second;
  }
  return r;
}
inline std::string diffData(const std::string& want, const std::string& got) {
  if (want == got) return "";
  std::ostringstream o;
  size_t n = std::min(want.size(), got.size()), i = 0;
  while (i < n && want[i] == got[i]) i++;
  o << "size " << got.size() << " instead of " << want.size();
  if (i < n) o << ", first difference at " << i;
  return o.str();
}
// "" if `got` has exactly the files of `want` (or at least them, if extraOk)
inline std::string diffTrees(const Tree& want, const Tree& got, bool extraOk = false) {
  for (auto& e : want) {
    auto it = got.find(e.first);
    if (it == got.end()) return "missing " + pbt::show(e.first) + " (" + std::to_string(e.second.size()) + " bytes)";
    auto d = diffData(e.second, it->second);
    if (!d.empty()) return pbt::show(e.first) + ": " + d;
  }
  if (!extraOk)
    for (auto& e : got) if (!want.count(e.first)) return "unexpected " + pbt::show(e.first) + " (" + std::to_string(e.second.size()) + " bytes)";
  return "";
}
inline int64_t totalSize(const Tree& t) { int64_t n = 0; for (auto& e : t) n += e.second.size(); return n; }

// file size around the interesting boundaries
inline size_t genSize(pbt::Case& c, size_t block, size_t buf, size_t maxSize) {
  size_t r;
  switch (c.weighted({3, 2, 3, 2, 3, 1})) {
    case 0: r = c.logRange(1, 300); break;
    case 1: r = 0; break;
    case 2: r = block ? block * c.range(1, 4) + c.range(-1, 1) : c.logRange(1, 5000); break;
    case 3: r = buf * c.range(1, 2) + c.range(-2, 2); break;
    case 4: r = c.logRange(1, maxSize); break;
    default: r = 4096 * c.range(1, 8); break;
  }
  return std::min(r, maxSize);
}
inline std::string genContent(pbt::Case& c, size_t n, bool highBytes) {
  if (!n) return "";
  std::string s = c.blob(n);
  if (highBytes) for (auto& ch : s) ch |= (char)0x80;
  return s;
}
struct TreeOpts {
  size_t maxFiles{12}, block{0}, buf{262144}, maxSize{200000}, maxTotal{1500000};
  bool highBytes{false};
};
inline Tree genTree(pbt::Case& c, const TreeOpts& o) {
  Tree t;
  std::vector<std::string> dirs{""};
  size_t n = c.logRange(0, o.maxFiles), total = 0;
  for (size_t i = 0; i < n; i++) {
    std::string d = dirs[c.draw(dirs.size() - 1)];
    if (c.chance(1, 3)) { d += genName(c) + "/"; dirs.push_back(d); }
    std::string p = d + genName(c);
    // not a directory of another entry, nor below a file
    bool bad = t.count(p) || p == ".wdt.log";
    for (auto& x : dirs) if (x == p + "/") bad = true;
    for (size_t k = 0; k < p.size(); k++) if (p[k] == '/' && t.count(p.substr(0, k))) bad = true;
    if (bad) continue;
    if (p.size() > 1000) continue;
    size_t sz = genSize(c, o.block, o.buf, o.maxSize);
    if (total + sz > o.maxTotal) sz = c.logRange(1, 300);
    total += sz;
    t[p] = genContent(c, sz, o.highBytes);
  }
  return t;
}
inline std::string showTree(const Tree& t) {
  std::string r;
  for (auto& e : t) r += pbt::show(e.first, 60) + ":" + std::to_string(e.second.size()) + " ";
  return r;
}

// ---------------------------------------------------------------- configuration
struct Cfg {
  int ports{1};
  double blockMb{16};
  int bufSize{262144};
  bool checksum{false};
  std::string enc{"none"};
  int tagInterval{4194304};
  int ivMb{32768};
  int sVer{32}, rVer{32};
  bool resume{false}, dirTree{false};
  bool noPrealloc{false}, fsync{true}, fadvise{true}, overwrite{false}, deleteExtra{false}, heartBeat{true};
  double syncMb{0.5};
  bool twoPhases{false}, fullReporting{false}, odirect{false}, keepLog{true}, compaction{false}, noVerifySender{false};
  int openFiles{0};
  double avgMb{-1};
  int readTimeout{20000}, writeTimeout{20000}, acceptWindow{20000}, connectTimeout{5000}, abortCheck{50};
  int sleepMs{10}, maxRetries{20}, maxTransferRetries{3}, drainMs{500}, logIntervalMs{20}, acceptTimeout{100}, maxAcceptRetries{500};
  int sndBuf{0}, rcvBuf{0};
  int64_t blockBytes() const { return blockMb > 0 ? (int64_t)(blockMb * 1024 * 1024) : 0; }
  void apply(WdtOptions& o) const {
    o.num_ports = ports;
    o.block_size_mbytes = blockMb;
    o.buffer_size = bufSize;
    o.enable_checksum = checksum;
    o.encryption_type = enc;
    o.encryption_tag_interval_bytes = tagInterval;
    o.iv_change_interval_mb = ivMb;
    o.enable_download_resumption = resume;
    o.resume_using_dir_tree = dirTree;
    o.disable_preallocation = noPrealloc;
    o.fsync = fsync;
    o.skip_fadvise = !fadvise;
    o.overwrite = overwrite;
    o.delete_extra_files = deleteExtra;
    o.enable_heart_beat = heartBeat;
    o.disk_sync_interval_mb = syncMb;
    o.two_phases = twoPhases;
    o.full_reporting = fullReporting;
    o.odirect_reads = odirect;
    o.keep_transfer_log = keepLog;
    o.enable_transfer_log_compaction = compaction;
    o.disable_sender_verification_during_resumption = noVerifySender;
    o.open_files_during_discovery = openFiles;
    o.avg_mbytes_per_sec = avgMb;
    o.read_timeout_millis = readTimeout;
    o.write_timeout_millis = writeTimeout;
    o.accept_window_millis = acceptWindow;
    o.connect_timeout_millis = connectTimeout;
    o.abort_check_interval_millis = abortCheck;
    o.sleep_millis = sleepMs;
    o.max_retries = maxRetries;
    o.max_transfer_retries = maxTransferRetries;
    o.drain_extra_ms = drainMs;
    o.transfer_log_write_interval_ms = logIntervalMs;
    o.accept_timeout_millis = acceptTimeout;
    o.max_accept_retries = maxAcceptRetries;
    o.send_buffer_size = sndBuf;
    o.receive_buffer_size = rcvBuf;
    o.progress_report_interval_millis = 20;
  }
  std::string show() const {
    std::ostringstream o;
    o << "ports=" << ports << " block=" << blockBytes() << " buf=" << bufSize << " checksum=" << checksum << " enc=" << enc << " tag=" << tagInterval
      << " sver=" << sVer << " rver=" << rVer << " resume=" << resume << " dirTree=" << dirTree << " noPrealloc=" << noPrealloc << " fsync=" << fsync
      << " overwrite=" << overwrite << " del=" << deleteExtra << " hb=" << heartBeat << " syncMb=" << syncMb << " two=" << twoPhases << " full=" << fullReporting
      << " odirect=" << odirect << " keepLog=" << keepLog << " compact=" << compaction << " openFiles=" << openFiles << " avgMb=" << avgMb
      << " readTo=" << readTimeout << " window=" << acceptWindow << " retries=" << maxTransferRetries << " sndBuf=" << sndBuf << " rcvBuf=" << rcvBuf;
    return o.str();
  }
};
inline std::string genEnc(pbt::Case& c) { return c.pick<std::string>({"none", "aes128gcm", "aes128ctr"}); }
// settings which any correct transfer tolerates
inline void genTransport(pbt::Case& c, Cfg& f, int maxPorts) {
  f.ports = (int)c.logRange(1, maxPorts);
  switch (c.draw(3)) {
    case 0: f.blockMb = 16; break;
    case 1: f.blockMb = 0; break;
    default: f.blockMb = (double)c.logRange(1, 100000) / 1048576.0; break;
  }
  if (f.blockMb > 0 && f.blockBytes() < 1) f.blockMb = 2.0 / 1048576;
  f.bufSize = c.flip() ? 262144 : (int)c.logRange(1, 100000);
  f.checksum = c.flip();
  f.enc = genEnc(c);
  f.tagInterval = c.flip() ? 4194304 : (int)c.logRange(1, 100000);
  if (c.chance(1, 4)) f.tagInterval = 0;
  f.heartBeat = !c.chance(1, 4);
  f.twoPhases = c.chance(1, 4);
  f.fullReporting = c.flip();
  f.odirect = c.chance(1, 6);
  f.openFiles = c.chance(1, 3) ? (c.flip() ? -1 : (int)c.range(1, 5)) : 0;
  f.noPrealloc = c.chance(1, 3);
  f.fsync = c.flip();
  f.fadvise = c.flip();
  f.syncMb = c.flip() ? 0.5 : (c.flip() ? 0 : (double)c.logRange(1, 100000) / 1048576.0);
  if (c.chance(1, 6)) f.sndBuf = (int)c.logRange(2000, 60000);
  if (c.chance(1, 6)) f.rcvBuf = (int)c.logRange(2000, 60000);
}
// few enough blocks that a case stays fast
inline void boundBlocks(Cfg& f, const Tree& t, size_t maxBlocks = 400) {
  if (f.blockMb <= 0) return;
  size_t n = 0;
  for (auto& e : t) n += e.second.size() / std::max<int64_t>(1, f.blockBytes()) + 1;
  while (n > maxBlocks) {
    f.blockMb *= 2;
    n = 0;
    for (auto& e : t) n += e.second.size() / std::max<int64_t>(1, f.blockBytes()) + 1;
  }
}
inline int64_t numBlocks(const Cfg& f, const Tree& t) {
  int64_t n = 0, b = f.blockBytes();
  for (auto& e : t) n += (b > 0 && !e.second.empty()) ? ((int64_t)e.second.size() + b - 1) / b : 1;
  return n;
}

// ---------------------------------------------------------------- faulty forwarder
enum Act { PASS, CUT, RST, STALL, HOLE, CORRUPT, CHOP };
inline const char* actName(int a) { static const char* n[] = {"pass", "cut", "reset", "stall", "blackhole", "corrupt", "chop"}; return n[a]; }
struct Fault {
  Act act{PASS};
  int dir{0};         // 0: sender to receiver, 1: receiver to sender; stalls and cuts affect both
  int64_t after{0};   // bytes passed in that direction before it happens
  int ms{0};          // length of a stall, pause between chops
  uint64_t seed{0};
  int64_t flipAt{-1}; // also alter bytes there (same direction)
  std::string show() const { std::ostringstream o; if (flipAt >= 0) o << "corrupt" << (dir ? "<" : ">") << flipAt << "+"; o << actName(act) << (act == PASS ? "" : dir ? "<" : ">") << (act == PASS ? "" : std::to_string(after)) << (ms ? "/" + std::to_string(ms) + "ms" : ""); return o.str(); }
};
struct PortPlan {
  std::vector<Fault> conns;  // fault of the k-th connection; later connections pass
  bool refuseAfter{false};   // refuse connections after conns.size()
  bool contentOnly{false};   // corrupt only bytes surrounded by bytes >= 0x80
  std::string show() const { std::string r; for (auto& f : conns) r += f.show() + ","; if (refuseAfter) r += "then refused"; return "[" + r + "]"; }
};
class Forwarder {
 public:
  // dstPort may be set later (0: the connection is dropped)
  explicit Forwarder(int dstPort, PortPlan p) : dst_(dstPort), plan_(std::move(p)) {
    lfd_ = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (bind(lfd_, (sockaddr*)&a, sizeof a) || listen(lfd_, 16)) throw std::runtime_error("harness: proxy listen failed");
    socklen_t l = sizeof a;
    getsockname(lfd_, (sockaddr*)&a, &l);
    port_ = ntohs(a.sin_port);
    th_ = std::thread([this] { acceptLoop(); });
  }
  ~Forwarder() { stop(); }
  void stop() {
    if (stop_.exchange(true)) return;
    th_.join();
    for (auto& t : conns_) t.join();
    if (lfd_ >= 0) close(lfd_);
  }
  int port() const { return port_; }
  int accepted() const { return n_; }
  std::atomic<int64_t> bytes[2]{{0}, {0}};
  std::atomic<int> fired{0}, corrupted{0};
  // called with the number of bytes forwarded so far (both directions of one connection separately)
  std::function<void(int dir, int64_t n)> onBytes;

 private:
  void acceptLoop() {
    while (!stop_) {
      pollfd p{lfd_, POLLIN, 0};
      if (poll(&p, 1, 20) <= 0) continue;
      int s = accept(lfd_, nullptr, nullptr);
      if (s < 0) continue;
      size_t k = n_++;
      Fault f;
      if (k < plan_.conns.size()) f = plan_.conns[k];
      bool last = plan_.refuseAfter && k + 1 >= plan_.conns.size();
      if (plan_.refuseAfter && plan_.conns.empty()) { rst(s); }
      else conns_.emplace_back([this, s, f] { run(s, f); });
      if (last) { close(lfd_); lfd_ = -1; while (!stop_) msleep(10); return; }
    }
  }
  static void rst(int fd) {
    linger l{1, 0};
    setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
    close(fd);
  }
  void run(int s, Fault f) {
    int d = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    a.sin_port = htons(dst_);
    if (connect(d, (sockaddr*)&a, sizeof a)) { rst(s); close(d); return; }
    int one = 1;
    setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    setsockopt(d, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    fcntl(s, F_SETFL, O_NONBLOCK);
    fcntl(d, F_SETFL, O_NONBLOCK);
    int fd[2] = {s, d};  // direction i reads fd[i], writes fd[1-i]
    std::string q[2];
    bool eof[2] = {false, false}, shut[2] = {false, false};
    int64_t seen[2] = {0, 0};
    bool done = f.act == PASS || f.act == CORRUPT, hole = false;
    int64_t flipAt = f.act == CORRUPT ? f.after : f.flipAt;
    bool flipped = flipAt < 0;
    double holdUntil = 0;
    pbt::Rng rng(f.seed);
    bool dead = false;
    while (!stop_ && !dead) {
      pollfd p[2] = {{s, 0, 0}, {d, 0, 0}};
      bool held = hole || now() < holdUntil;
      for (int i = 0; i < 2; i++) {
        if (!eof[i] && q[i].size() < 65536 && !held) p[i].events |= POLLIN;
        if (!q[i].empty() && !held) p[1 - i].events |= POLLOUT;
      }
      if (held) { msleep(5); }
      for (auto& x : p) if (!x.events) x.fd = -1;
      int r = poll(p, 2, held ? 0 : 20);
      if (r < 0) break;
      if (held) continue;
      for (int i = 0; i < 2 && !dead; i++) {
        if (p[i].revents & (POLLIN | POLLHUP | POLLERR) && !eof[i] && q[i].size() < 65536) {
          char b[16384];
          size_t want = sizeof b;
          if (f.act == CHOP && f.dir == i) want = 1 + rng.below(1 + f.after);
          if (!done && i == f.dir && f.act != CHOP) want = std::min<int64_t>(want, std::max<int64_t>(1, f.after - seen[i]));
          ssize_t k = recv(fd[i], b, want, 0);
          if (k == 0) eof[i] = true;
          else if (k < 0) { if (errno != EAGAIN && errno != EINTR) { dead = true; break; } }
          else {
            if (!flipped && i == f.dir) corrupt(b, k, seen[i], flipAt, f.seed, rng, flipped);
            seen[i] += k;
            bytes[i] += k;
            if (onBytes) onBytes(i, bytes[i]);
            q[i].append(b, k);
            if (f.act == CHOP && f.dir == i && f.ms) msleep(rng.below(f.ms + 1));
          }
        }
        if (!q[i].empty()) {
          ssize_t k = send(fd[1 - i], q[i].data(), q[i].size(), MSG_NOSIGNAL);
          if (k > 0) q[i].erase(0, k);
          else if (k < 0 && errno != EAGAIN && errno != EINTR) { dead = true; break; }
        }
        if (eof[i] && q[i].empty() && !shut[i]) { shutdown(fd[1 - i], SHUT_WR); shut[i] = true; }
      }
      if (dead) break;
      if (!done && f.act != CHOP && seen[f.dir] >= f.after && q[f.dir].empty()) {
        done = true;
        fired++;
        if (f.act == CUT) break;
        if (f.act == RST) { rst(s); rst(d); return; }
        if (f.act == STALL) holdUntil = now() + f.ms / 1000.0;
        if (f.act == HOLE) hole = true;
      }
      if (shut[0] && shut[1]) break;
    }
    if (dead) { rst(s); rst(d); return; }
    close(s);
    close(d);
  }
  void corrupt(char* b, ssize_t n, int64_t at, int64_t flipAt, uint64_t seed, pbt::Rng& rng, bool& done) {
    if (at + n <= flipAt) { return; }
    ssize_t from = std::max<int64_t>(0, flipAt - at);
    int len = 1 + (int)(seed % 4);
    if (!plan_.contentOnly) {
      for (ssize_t i = from; i < n && i < from + len; i++) b[i] ^= (char)(1 + rng.below(255));
      done = true;
      fired++;
      corrupted++;
      return;
    }
    // only where 16 bytes before and after are content (>= 0x80)
    int run = 0;
    for (ssize_t i = 0; i < n; i++) {
      run = (b[i] & 0x80) ? run + 1 : 0;
      if (run >= 40 && i - 20 >= from) {
        b[i - 20] ^= (char)(1 + rng.below(127));
        done = true;
        fired++;
        corrupted++;
        return;
      }
    }
  }
  int lfd_, port_;
  std::atomic<int> dst_;
  PortPlan plan_;
  std::atomic<bool> stop_{false};
  std::atomic<int> n_{0};
  std::thread th_;
  std::vector<std::thread> conns_;
};
// makes the sender connect to the forwarders
struct ViaForwarder : Sender::ISocketCreator {
  std::map<int, int> to;
  std::unique_ptr<IClientSocket> makeClientSocket(ThreadCtx& ctx, const std::string& dest, const int port, const EncryptionParams& enc, int64_t iv, bool) override {
    auto it = to.find(port);
    return std::make_unique<ClientSocket>(ctx, dest, it == to.end() ? port : it->second, enc, iv);
  }
};

// ---------------------------------------------------------------- reports
struct Rep {
  ErrorCode code{ERROR}, local{ERROR}, remote{ERROR};
  int64_t dataBytes{0}, effBytes{0}, blocks{0}, files{0}, totalSize{0}, discovered{0}, prevSent{0}, failedAttempts{0}, headerBytes{0};
  int64_t blocksSend{0}, senderBytes{0};
  std::vector<std::string> failedSources, failedDirs;
  std::vector<ErrorCode> threads;
  std::vector<std::pair<std::string, int64_t>> sources;  // id, effective bytes
  bool discoveryDone{false};
  double secs{0};
  bool ok() const { return code == OK; }
  std::string show() const {
    std::ostringstream o;
    o << errorCodeToStr(code) << " data=" << dataBytes << " eff=" << effBytes << " blocks=" << blocks << " total=" << totalSize << " discovered=" << discovered
      << " prev=" << prevSent << " failedAttempts=" << failedAttempts << " secs=" << secs;
    if (!failedSources.empty()) o << " failedSources=" << failedSources.size();
    return o.str();
  }
};
inline Rep mkRep(const TransferReport& r) {
  Rep x;
  auto& s = r.getSummary();
  x.code = s.getErrorCode();
  x.local = s.getLocalErrorCode();
  x.remote = s.getRemoteErrorCode();
  x.dataBytes = s.getDataBytes();
  x.effBytes = s.getEffectiveDataBytes();
  x.headerBytes = s.getHeaderBytes();
  x.blocks = s.getNumBlocks();
  x.files = s.getNumFiles();
  x.failedAttempts = s.getFailedAttempts();
  x.blocksSend = s.getNumBlocksSend();
  x.senderBytes = s.getTotalSenderBytes();
  x.totalSize = r.getTotalFileSize();
  x.discovered = r.getNumDiscoveredFiles();
  x.prevSent = r.getPreviouslySentBytes();
  x.discoveryDone = r.fileDiscoveryFinished();
  for (auto& t : r.getFailedSourceStats()) x.failedSources.push_back(t.getId());
  for (auto& t : r.getTransferredSourceStats()) x.sources.push_back({t.getId(), t.getEffectiveDataBytes()});
  for (auto& t : r.getThreadStats()) x.threads.push_back(t.getErrorCode());
  x.failedDirs = r.getFailedDirectories();
  return x;
}
}  // namespace e2e
namespace e2e {
// One transfer.  Fill in the public fields, then run() (or the steps).
struct Session {
  Cfg cfg;
  std::string src, dst, recoveryId;
  std::string transferId{"vt"};
  // 0: traverse src; 1: list; 2: list of descriptors; 3: generator
  std::vector<WdtFileInfo> list;
  bool useList{false};
  std::vector<std::vector<WdtFileInfo>> batches;  // for the generator
  bool useGenerator{false};
  std::vector<PortPlan> plan;  // faults, per port (empty: direct connections)
  std::function<void(WdtTransferRequest&)> tweakRequest;
  std::function<void(WdtOptions&, bool sender)> tweakOptions;
  std::function<void(WdtBase&, bool sender)> onCreated;   // before init
  std::function<void(WdtBase&, bool sender)> onReady;     // after init, before it starts
  // results
  std::unique_ptr<Receiver> receiver;
  std::unique_ptr<Sender> sender;
  std::vector<std::unique_ptr<Forwarder>> fwd;
  ViaForwarder via;
  WdtTransferRequest req;
  ErrorCode initCode{ERROR};
  Rep s, r;
  double sSecs{0}, rSecs{0};

  ErrorCode startReceiver() {
    WdtTransferRequest rq(0, cfg.ports, dst);
    rq.protocolVersion = cfg.rVer;
    rq.transferId = transferId;
    receiver = std::make_unique<Receiver>(rq);
    WdtOptions o;
    cfg.apply(o);
    if (tweakOptions) tweakOptions(o, false);
    receiver->setWdtOptions(o);
    receiver->setRecoveryId(recoveryId);
    if (onCreated) onCreated(*receiver, false);
    req = receiver->init();
    initCode = req.errorCode;
    if (initCode != OK) return initCode;
    if (onReady) onReady(*receiver, false);
    return receiver->transferAsync();
  }
  ErrorCode startSender() {
    WdtTransferRequest rq = req;
    rq.hostName = "127.0.0.1";
    rq.directory = src;
    rq.protocolVersion = cfg.sVer;
    if (useList) { rq.fileInfo = list; rq.disableDirectoryTraversal = true; }
    if (useGenerator) {
      auto* self = this;
      auto next = std::make_shared<size_t>(0);
      rq.fileInfoGenerator = [self, next]() -> folly::Optional<std::vector<WdtFileInfo>> {
        if (*next >= self->batches.size()) return folly::none;
        return self->batches[(*next)++];
      };
    }
    if (tweakRequest) tweakRequest(rq);
    sender = std::make_unique<Sender>(rq);
    WdtOptions o;
    cfg.apply(o);
    if (tweakOptions) tweakOptions(o, true);
    sender->setWdtOptions(o);
    if (onCreated) onCreated(*sender, true);
    if (!plan.empty()) {
      for (size_t i = 0; i < req.ports.size(); i++) {
        fwd.push_back(std::make_unique<Forwarder>(req.ports[i], i < plan.size() ? plan[i] : PortPlan()));
        via.to[req.ports[i]] = fwd.back()->port();
      }
      sender->setSocketCreator(&via);
    }
    auto& q = sender->init();
    if (q.errorCode != OK) return q.errorCode;
    if (onReady) onReady(*sender, true);
    return sender->transferAsync();
  }
  void finishSender() {
    double t = now();
    auto rep = sender->finish();
    sSecs = now() - t;
    s = mkRep(*rep);
    s.secs = sSecs;
  }
  void finishReceiver() {
    double t = now();
    auto rep = receiver->finish();
    rSecs = now() - t;
    r = mkRep(*rep);
    r.secs = rSecs;
  }
  ErrorCode run() {
    double t0 = now();
    ErrorCode c = startReceiver();
    if (c != OK) return c;
    c = startSender();
    if (c != OK) return c;
    double t1 = now();
    finishSender();
    double t2 = now();
    finishReceiver();
    if (const char* tf = getenv("E2E_TIMES")) if (FILE* tfp = fopen(tf, "a")) { fprintf(tfp, "TIMES start %.2f sender %.2f receiver %.2f  %s\n", t1 - t0, t2 - t1, now() - t2, cfg.show().c_str()); fclose(tfp); }
    return OK;
  }
  ~Session() {
    sender.reset();
    receiver.reset();
    fwd.clear();
  }
};
}  // namespace e2e
