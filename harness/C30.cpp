// variant: asan
// libs: core
// extra: common_proc.cpp
// tools: asan/cli/wdt
// workers: 20
// C30: the wdt command transfers what it is told and its exit code tells the outcome.
#include <netdb.h>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <wdt/ErrorCodes.h>
#include <wdt/WdtTransferRequest.h>
#include "common_e2e.h"
#include "common_proc.h"
using namespace facebook::wdt;
using pbt::Case;
using e2e::Tree;
typedef std::vector<std::string> Args;

// ------------------------------------------------------------- a running wdt
struct Proc {
  pid_t pid{-1};
  int in{-1}, out{-1};
  std::string errPath, buf;  // buf: all of stdout so far
  size_t lineStart{0};
  bool eof{false}, reaped{false};
  int status{-1};  // exit status or 1000 + signal
  std::string who;
  Proc(const std::string& name, const Args& args, const std::string& err, const std::string& cwd = "") : errPath(err), who(name) {
    int pi[2], po[2];
    if (pipe2(pi, O_CLOEXEC) || pipe2(po, O_CLOEXEC)) throw std::runtime_error("harness: pipe failed");
    int fe = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0600);
    if (fe < 0) throw std::runtime_error("harness: cannot create " + err);
    std::string tool = toolPath("asan/cli/wdt");
    pid = fork();
    if (pid < 0) throw std::runtime_error("harness: fork failed");
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      setsid();
      dup2(pi[0], 0);
      dup2(po[1], 1);
      dup2(fe, 2);
      if (!cwd.empty() && chdir(cwd.c_str())) _exit(126);
      for (auto v : {"GLOG_minloglevel", "GLOG_v", "GLOG_logtostderr"}) unsetenv(v);
      std::vector<char*> a{const_cast<char*>(tool.c_str())};
      for (auto& s : args) a.push_back(const_cast<char*>(s.c_str()));
      a.push_back(nullptr);
      execv(a[0], a.data());
      _exit(127);
    }
    close(pi[0]);
    close(po[1]);
    close(fe);
    in = pi[1];
    out = po[0];
  }
  ~Proc() {
    closeIn();
    if (pid > 0) killpg(pid, SIGKILL);
    if (pid > 0 && !reaped) {
      kill(pid, SIGKILL);
      waitpid(pid, nullptr, 0);
    }
    if (out >= 0) close(out);
    // forked receivers, which are ours as we are the subreaper
    if (pid > 0) while (waitpid(-pid, nullptr, 0) > 0) {}
  }
  void write(const std::string& s) {
    size_t o = 0;
    while (o < s.size()) {
      ssize_t k = ::write(in, s.data() + o, s.size() - o);
      if (k <= 0) return;
      o += k;
    }
  }
  void closeIn() {
    if (in >= 0) close(in);
    in = -1;
  }
  // reads what stdout has, for at most `t` seconds; false at its end
  bool pump(double t) {
    if (eof) return false;
    struct pollfd f {out, POLLIN, 0};
    if (poll(&f, 1, (int)(t * 1000)) <= 0) return true;
    char b[4096];
    ssize_t k = read(out, b, sizeof b);
    if (k <= 0) eof = true;
    else buf.append(b, k);
    return !eof;
  }
  bool readLine(double timeout, std::string& line) {
    double end = e2e::now() + timeout;
    while (true) {
      size_t i = buf.find('\n', lineStart);
      if (i != std::string::npos) {
        line = buf.substr(lineStart, i - lineStart);
        lineStart = i + 1;
        return true;
      }
      double left = end - e2e::now();
      if (left <= 0 || !pump(std::min(left, 0.2))) return false;
    }
  }
  bool poll1() {
    int st;
    if (!reaped && waitpid(pid, &st, WNOHANG) == pid) {
      reaped = true;
      status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    }
    return reaped;
  }
  bool wait(double timeout) {
    double end = e2e::now() + timeout;
    while (!poll1()) {
      if (e2e::now() > end) return false;
      if (eof) e2e::msleep(5);
      else pump(0.005);
    }
    while (!eof && e2e::now() < end && [&] { size_t n = buf.size(); bool m = pump(0.02); return m && buf.size() > n; }()) {}
    return true;
  }
  std::string err() const { return readAll(errPath); }
  std::string tail() const {
    std::string e = err();
    std::string r = "\n--- " + who + " (status " + std::to_string(status) + ") log ends with:\n";
    return r + (e.size() > 2500 ? e.substr(e.size() - 2500) : e);
  }
};
struct World {
  Case& c;
  std::string dir;
  int n{0};
  std::vector<std::unique_ptr<Proc>> all;
  explicit World(Case& cc) : c(cc), dir(cc.scratch()) { prctl(PR_SET_CHILD_SUBREAPER, 1); }
  Proc& start(const std::string& who, const Args& a, const std::string& cwd = "") {
    std::string e = dir + "/err." + std::to_string(n++);
    c.note([&] {
      std::string s = who + ": wdt";
      for (auto& x : a) s += " " + pbt::show(x, 300);
      return s;
    });
    all.emplace_back(new Proc(who, a, e, cwd));
    return *all.back();
  }
};
// A clean end: not by a signal, nothing from the sanitizers, the exit code is the one named.
static void checkEnd(Case& c, Proc& p, double timeout, bool transfer = true) {
  PBT_CHECK(c, p.wait(timeout), "the " << p.who << " still runs after " << timeout << " s" << p.tail());
  std::string e = p.err();
  PBT_CHECK(c, p.status < 1000, "the " << p.who << " was ended by signal " << p.status - 1000 << p.tail());
  PBT_CHECK(c, e.find("AddressSanitizer") == std::string::npos && e.find("runtime error:") == std::string::npos, p.who << " has undefined behaviour" << p.tail());
  PBT_CHECK(c, p.status < 34, "exit code " << p.status << " names no error" << p.tail());
  if (!transfer) return;
  std::string ret = "Returning with OK exit code";
  if (p.status) ret = "Returning with code " + std::to_string(p.status) + " " + errorCodeToStr((ErrorCode)p.status);
  PBT_CHECK(c, e.find(ret) != std::string::npos, "exit code " << p.status << " but the log does not say \"" << ret << "\"" << p.tail());
}
static void checkFails(Case& c, Proc& p, double timeout, bool transfer = true) {
  checkEnd(c, p, timeout, transfer);
  PBT_CHECK(c, p.status != 0, "the " << p.who << " exits with 0" << p.tail());
}
static std::string hex(const std::string& s) {
  std::string r;
  for (unsigned char ch : s) {
    r.push_back("0123456789abcdef"[ch >> 4]);
    r.push_back("0123456789abcdef"[ch & 15]);
  }
  return r;
}
static void checkNoSecret(Case& c, const World& w, const std::string& secret) {
  if (secret.empty()) return;
  for (auto& p : w.all) {
    std::string e = p->err();
    PBT_CHECK(c, e.find(hex(secret)) == std::string::npos, "the " << p->who << " logs the encryption secret (in hexadecimal)");
    PBT_CHECK(c, e.find(secret) == std::string::npos, "the " << p->who << " logs the encryption secret");
  }
}
// ------------------------------------------------------------- configurations
struct Conf {
  std::string encType{"aes128gcm"}, secret, id, destId, ns, host{"127.0.0.1"};
  bool encGiven{false}, hostAtReceiver{true};
  int ports{8};
  bool portsGiven{false};
  Args recv, send;  // extra flags of each side
  bool resume{false};
  bool log{false};
};
static bool hasIpv6() {
  static int r = -1;
  if (r < 0) {
    int fd = socket(AF_INET6, SOCK_STREAM, 0);
    struct sockaddr_in6 a {};
    a.sin6_family = AF_INET6;
    a.sin6_addr = in6addr_loopback;
    r = fd >= 0 && !bind(fd, (struct sockaddr*)&a, sizeof a);
    if (fd >= 0) close(fd);
  }
  return r;
}
static Args timeouts() {
  return {"-accept_timeout_millis=100", "-max_accept_retries=200", "-read_timeout_millis=8000", "-write_timeout_millis=8000",
          "-accept_window_millis=8000", "-connect_timeout_millis=5000", "-sleep_millis=10", "-max_retries=20",
          "-abort_check_interval_millis=50", "-drain_extra_ms=500"};
}
static Conf genConf(Case& c, bool exotic = true) {
  Conf f;
  f.recv = timeouts();
  f.send = timeouts();
  f.encGiven = c.chance(2, 3);
  if (f.encGiven) {
    f.encType = c.pick<std::string>({"none", "aes128ctr", "aes128gcm"});
    f.recv.push_back("-encryption_type=" + f.encType);
  }
  if (f.encType != "none" && c.chance(1, 3)) {
    f.secret = c.str(16, 16, "abcdefXYZ0123456789_-+=/ ");
    f.recv.push_back("-test_only_encryption_secret=" + f.secret);
  }
  if (c.chance(1, 2)) {
    f.id = c.str(1, 20, "abcXYZ019-_ %&=?/:+,.\xc3\xa9");
    f.recv.push_back("-transfer_id=" + f.id);
  }
  if (c.chance(1, 4)) {
    f.destId = c.str(1, 10, "abc019-_ %&=");
    f.recv.push_back("-dest_id=" + f.destId);
  }
  if (c.chance(1, 4)) {
    f.ns = c.str(1, 10, "abc019-_");
    f.recv.push_back("-namespace=" + f.ns);
    if (c.flip()) f.send.push_back("-namespace=" + c.str(1, 10, "abc019-_"));
  }
  f.portsGiven = c.chance(3, 4);
  if (f.portsGiven) {
    f.ports = c.logRange(1, 6);
    f.recv.push_back("-num_ports=" + std::to_string(f.ports));
  }
  if (c.chance(1, 4)) f.recv.push_back("-start_port=0");
  f.host = c.pick<std::string>({"127.0.0.1", "localhost", "127.0.0.2", hasIpv6() ? "::1" : "127.0.0.1"});
  f.hostAtReceiver = c.chance(2, 3);
  (f.hostAtReceiver ? f.recv : f.send).push_back("-hostname=" + f.host);
  if (!exotic) return f;
  auto both = [&](const std::string& a) { f.recv.push_back(a); f.send.push_back(a); };
  auto any = [&](const std::string& a) { if (c.flip()) f.recv.push_back(a); else f.send.push_back(a); };
  if (c.chance(1, 3)) any("-block_size_mbytes=" + c.pick<std::string>({"0.01", "0.001", "1", "-1", "0"}));
  if (c.chance(1, 4)) any("-enable_checksum=" + c.pick<std::string>({"true", "false"}));
  if (c.chance(1, 4)) any("-two_phases");
  if (c.chance(1, 4)) any("-full_reporting");
  if (c.chance(1, 5)) f.send.push_back("-odirect_reads");
  if (c.chance(1, 5)) f.send.push_back("-open_files_during_discovery=" + std::to_string(c.pick({0, 1, 5, -1})));
  if (c.chance(1, 5)) f.recv.push_back("-disable_preallocation");
  if (c.chance(1, 5)) any("-option_type=" + c.pick<std::string>({"disk", "flash"}));
  for (auto& x : f.recv) if (x == "-option_type=disk" && !f.portsGiven) f.ports = 3;
  if (c.chance(1, 6)) any("-protocol_version=" + std::to_string(c.range(28, 32)));
  if (c.chance(1, 3)) both("-v=" + std::to_string(c.range(1, 5)));
  if (c.chance(1, 6)) any("-enable_perf_stat_collection");
  if (c.chance(1, 6)) any("-ipv4");
  if (f.host.find(':') != std::string::npos) {
    for (auto* a : {&f.recv, &f.send}) a->erase(std::remove(a->begin(), a->end(), std::string("-ipv4")), a->end());
  }
  if (c.chance(1, 6)) any("-progress_report_interval_millis=" + c.pick<std::string>({"0", "5", "-1"}));
  if (c.chance(1, 6)) any("-buffer_size=" + std::to_string(c.pick({65536, 10000, 1 << 20})));
  if (c.chance(1, 6)) any("-app_name=abc");
  f.resume = c.chance(1, 5);
  if (f.resume) {
    f.recv.push_back("-enable_download_resumption");
    if (c.flip()) f.recv.push_back("-keep_transfer_log=false");
  }
  if (c.chance(1, 8)) any("-abort_after_seconds=600");
  return f;
}
// The receiver's one line of output: complete and as configured.
static std::string checkUrl(Case& c, World& w, Proc& r, Conf& f, int expectPorts = -1) {
  std::string url;
  if (!r.readLine(20, url)) {
    r.wait(1);
    c.fail("the receiver prints no url" + r.tail());
  }
  c.note([&] { return "url " + pbt::show(url, 400); });
  WdtTransferRequest q(url);
  PBT_EQ(c, (int)q.errorCode, (int)OK, "url " << url);
  if (expectPorts < 0) expectPorts = f.ports;
  PBT_EQ(c, (int)q.ports.size(), expectPorts, "ports of the url " << url);
  std::set<int> d(q.ports.begin(), q.ports.end());
  PBT_EQ(c, d.size(), q.ports.size(), "a port is repeated in " << url);
  for (int p : q.ports) PBT_CHECK(c, p > 0 && p < 65536, "port " << p << " in " << url);
  if (!f.id.empty()) PBT_EQ(c, pbt::show(q.transferId), pbt::show(f.id), "transfer id of " << url);
  PBT_CHECK(c, !q.transferId.empty(), "no transfer id in " << url);
  if (f.hostAtReceiver) PBT_EQ(c, q.hostName, f.host, "host of " << url);
  PBT_CHECK(c, !q.hostName.empty(), "no host in " << url);
  PBT_EQ(c, encryptionTypeToStr(q.encryptionData.getType()), f.encType, "encryption of " << url);
  if (f.encType != "none") {
    if (!f.secret.empty()) PBT_EQ(c, pbt::show(q.encryptionData.getSecret()), pbt::show(f.secret), "secret of " << url);
    f.secret = q.encryptionData.getSecret();
    PBT_EQ(c, f.secret.size(), (size_t)16, "length of the secret of " << url);
  }
  PBT_EQ(c, q.downloadResumptionEnabled, f.resume, "download resumption of " << url);
  return url;
}
// What a sender is told to send.
struct Choice {
  int how{0};  // 0 everything, 1 patterns, 2 manifest file, 3 manifest on stdin
  Args args;
  std::string manifest;
  Tree want;
};
static Choice genChoice(Case& c, const Tree& src, const std::string& dir) {
  Choice h;
  h.how = c.weighted({3, 2, 2, 2});
  h.want = src;
  std::vector<std::string> paths;
  for (auto& e : src) paths.push_back(e.first);
  if (h.how == 1) {
    Rx::P inc = c.flip() ? genRx(c, paths) : nullptr, exc = c.flip() ? genRx(c, paths) : nullptr;
    std::vector<std::string> dirs;
    for (auto& p : paths) for (size_t i = 0; i < p.size(); i++) if (p[i] == '/') dirs.push_back(p.substr(0, i + 1));
    Rx::P prune = c.chance(1, 3) ? genRx(c, dirs) : nullptr;
    if (inc && inc->src().empty()) inc = nullptr;
    if (exc && exc->src().empty()) exc = nullptr;
    if (prune && prune->src().empty()) prune = nullptr;
    if (inc) h.args.push_back("-include_regex=" + inc->src());
    if (exc) h.args.push_back("-exclude_regex=" + exc->src());
    if (prune) h.args.push_back("-prune_dir_regex=" + prune->src());
    h.want.clear();
    for (auto& e : src) {
      bool ok = (!inc || inc->match(e.first)) && !(exc && exc->match(e.first));
      for (size_t i = 0; i < e.first.size(); i++)
        if (e.first[i] == '/' && prune && prune->match(e.first.substr(0, i + 1))) ok = false;
      if (ok) h.want[e.first] = e.second;
    }
  } else if (h.how >= 2) {
    h.want.clear();
    for (size_t i = paths.size(); i > 1; i--) std::swap(paths[i - 1], paths[i - 1 - c.draw(i - 1)]);
    for (auto& p : paths) {
      if (p.find('\t') != std::string::npos || p.find('\n') != std::string::npos || c.chance(1, 4)) continue;
      const std::string& s = src.at(p);
      h.manifest += p;
      size_t n = s.size();
      switch (c.weighted({3, 2, 2, 2})) {
        case 1: h.manifest += "\t-1"; break;
        case 2: h.manifest += "\t" + std::to_string(n); break;
        case 3: n = c.range(0, n); h.manifest += "\t" + std::to_string(n); break;
        default: h.want[p] = s; h.manifest += "\n"; continue;
      }
      if (c.chance(1, 3)) h.manifest += "\t" + c.pick<std::string>({"0", "1", "true", "false"});
      h.manifest += "\n";
      h.want[p] = s.substr(0, n);
    }
    if (c.chance(1, 3) && !h.manifest.empty()) h.manifest.pop_back();
    if (h.how == 2) {
      writeAll(dir + "/manifest", h.manifest);
      h.args.push_back("-manifest=" + dir + "/manifest");
    } else {
      h.args.push_back("-manifest=-");
    }
  }
  return h;
}
static Tree genSrc(Case& c, bool oddNames = true, size_t maxTotal = 300000) {
  e2e::TreeOpts o;
  o.maxFiles = 10;
  o.maxSize = 60000;
  o.maxTotal = maxTotal;
  o.block = 10486;
  o.buf = 65536;
  Tree t = e2e::genTree(c, o);
  if (oddNames && c.chance(1, 5)) t["t\tb"] = c.blob(10);
  if (oddNames && c.chance(1, 5)) t["n\nl"] = c.blob(10);
  return t;
}
static void arg(Case& c, Args& a, const Args& more) {
  a.insert(a.end(), more.begin(), more.end());
  (void)c;
}
// Starts a sender: the url as an option or on its standard input.
static Proc& sender(Case& c, World& w, const std::string& url, const std::string& src, Conf& f, const Choice& h, bool forceStdin = false) {
  Args a = f.send;
  arg(c, a, h.args);
  bool viaStdin = forceStdin || c.chance(2, 3);
  std::string cwd;
  if (c.chance(1, 5)) cwd = src;  // -directory defaults to the current one
  else a.push_back("-directory=" + src + (c.chance(1, 6) ? "/" : ""));
  if (!viaStdin) a.push_back("-connection_url=" + url);
  c.shuffle(a);
  if (viaStdin) a.push_back("-");
  Proc& p = w.start("sender", a, cwd);
  std::string in;
  if (viaStdin) in = url + (h.how == 3 || c.chance(3, 4) ? "\n" : "");
  if (h.how == 3) in += h.manifest;
  size_t k = c.chance(1, 4) ? c.range(0, in.size()) : in.size();  // in one or two pieces
  p.write(in.substr(0, k));
  if (k < in.size()) {
    e2e::msleep(30);
    p.write(in.substr(k));
  }
  p.closeIn();
  return p;
}
static Proc& receiver(Case& c, World& w, const std::string& dst, Conf& f, const Args& more = {}, bool shuffle = true) {
  Args a = f.recv;
  arg(c, a, more);
  std::string cwd;
  struct stat st;
  if (shuffle && c.chance(1, 5) && !stat(dst.c_str(), &st)) cwd = dst;
  else a.push_back("-directory=" + dst);
  if (shuffle) c.shuffle(a);
  Proc& p = w.start("receiver", a, cwd);
  p.closeIn();
  return p;
}
static void checkStdout(Case& c, Proc& p, const std::string& want) {
  PBT_EQ(c, pbt::show(p.buf, 400), pbt::show(want, 400), "standard output of the " << p.who);
}

// ------------------------------------------------------------- subs
static void transfers(Case& c) {
  c.setDeadline(150);
  World w(c);
  Tree src = genSrc(c);
  Conf f = genConf(c);
  e2e::writeTree(w.dir + "/src", src);
  std::string dst = w.dir + "/dst";
  if (c.flip()) e2e::mkdirs(dst);
  else if (c.chance(1, 3)) dst += "/not/yet";
  Choice h = genChoice(c, src, w.dir);
  c.note([&] { return "source: " + e2e::showTree(src) + "\nwanted: " + e2e::showTree(h.want) + "\nmanifest: " + pbt::show(h.manifest, 500); });
  Proc& r = receiver(c, w, dst, f);
  std::string url = checkUrl(c, w, r, f);
  Proc& s = sender(c, w, url, w.dir + "/src", f, h);
  checkEnd(c, s, 60);
  checkEnd(c, r, 60);
  PBT_EQ(c, s.status, 0, "exit code of the sender" << s.tail() << r.tail());
  PBT_EQ(c, r.status, 0, "exit code of the receiver" << r.tail() << s.tail());
  std::string d = e2e::diffTrees(h.want, e2e::readTree(dst));
  PBT_CHECK(c, d.empty(), "destination: " << d << r.tail());
  d = e2e::diffTrees(src, e2e::readTree(w.dir + "/src"));
  PBT_CHECK(c, d.empty(), "the source is changed: " << d);
  checkStdout(c, s, "");
  checkStdout(c, r, url + "\n");
  checkNoSecret(c, w, f.secret);
  static const char* hows[] = {"everything", "patterns", "manifest file", "manifest on stdin"};
  c.label(hows[h.how]);
  c.label("encryption " + f.encType);
  if (f.resume) c.label("with a transfer log");
  if (!h.want.empty()) c.nontrivial();
}
// one listening socket, so that its port is taken
struct Busy {
  int fd{-1}, port{0};
  bool listening;
  Busy(int p, bool l) : listening(l) {
    fd = socket(AF_INET6, SOCK_STREAM | SOCK_CLOEXEC, 0);
    if (fd >= 0) {
      int off = 0;
      setsockopt(fd, IPPROTO_IPV6, IPV6_V6ONLY, &off, sizeof off);
      struct sockaddr_in6 a {};
      a.sin6_family = AF_INET6;
      a.sin6_port = htons(p);
      if (!bind(fd, (struct sockaddr*)&a, sizeof a)) { got(); return; }
      close(fd);
    }
    fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    struct sockaddr_in a {};
    a.sin_family = AF_INET;
    a.sin_port = htons(p);
    if (bind(fd, (struct sockaddr*)&a, sizeof a)) { close(fd); fd = -1; return; }
    got();
  }
  void got() {
    struct sockaddr_storage s;
    socklen_t n = sizeof s;
    getsockname(fd, (struct sockaddr*)&s, &n);
    port = ntohs(s.ss_family == AF_INET ? ((struct sockaddr_in*)&s)->sin_port : ((struct sockaddr_in6*)&s)->sin6_port);
    if (listening) listen(fd, 10);
  }
  ~Busy() { if (fd >= 0) close(fd); }
};
static void setFlag(Args& a, const std::string& n, const std::string& v) {
  for (auto it = a.begin(); it != a.end();)
    if (it->find("-" + n + "=") == 0) it = a.erase(it);
    else ++it;
  a.push_back("-" + n + "=" + v);
}
static void shortTimeouts(Conf& f) {
  for (auto* a : {&f.recv, &f.send}) {
    setFlag(*a, "read_timeout_millis", "1000");
    setFlag(*a, "write_timeout_millis", "1000");
    setFlag(*a, "accept_window_millis", "1000");
    setFlag(*a, "max_accept_retries", "40");
    setFlag(*a, "connect_timeout_millis", "1000");
    setFlag(*a, "max_retries", "3");
  }
}
static std::string replaceOnce(std::string s, const std::string& a, const std::string& b) {
  size_t i = s.find(a);
  if (i != std::string::npos) s.replace(i, a.size(), b);
  return s;
}
static void failures(Case& c) {
  c.setDeadline(150);
  World w(c);
  Tree src = genSrc(c, false);
  if (src.empty()) src["only"] = "x";
  Conf f = genConf(c, false);
  shortTimeouts(f);
  if (c.chance(1, 3)) f.send.push_back("-v=" + std::to_string(c.range(1, 5)));
  e2e::writeTree(w.dir + "/src", src);
  std::string dst = w.dir + "/dst", srcDir = w.dir + "/src";
  Choice h;
  h.want = src;
  const double T = 60;
  size_t kind = c.draw(13);
  static const char* kinds[] = {"no receiver", "wrong transfer id", "wrong secret", "missing source directory", "manifest names a missing file",
                                "manifest with a wrong size", "no such manifest", "malformed manifest", "malformed url", "no url",
                                "receiver without a sender", "destination can not be written", "file exists already", "command line"};
  c.label(kinds[kind]);
  c.nontrivial();
  auto noFiles = [&](const Tree& allowed = {}) {
    Tree t = e2e::readTree(dst);
    for (auto& e : t) {
      auto it = src.find(e.first);
      PBT_CHECK(c, it == src.end() || it->second.empty() || e.second != it->second || allowed.count(e.first), "delivered although it can not be: " << e.first);
    }
  };
  switch (kind) {
    case 0: {
      Busy b(0, false);
      std::string enc, id = c.str(1, 8, "abc");
      if (c.flip()) {
        f.secret = c.str(16, 16, "abcdefghij0123");
        enc = "Enc=" + c.pick<std::string>({"1", "2"}) + ":" + hex(f.secret) + "&";
      }
      std::string url = "wdt://" + (f.host.find(':') != std::string::npos ? "[" + f.host + "]" : f.host) + "?" + enc + "id=" + id + "&iv_change_int=0&ports=" + std::to_string(b.port) + "&recpv=32";
      h = genChoice(c, src, w.dir);
      Proc& s = sender(c, w, url, srcDir, f, h);
      checkFails(c, s, T);
      checkStdout(c, s, "");
      break;
    }
    case 1: case 2: {
      if (kind == 2 && f.encType == "none") c.discard();
      Proc& r = receiver(c, w, dst, f);
      std::string url = checkUrl(c, w, r, f);
      if (kind == 1) {
        WdtTransferRequest q(url);
        q.transferId += c.pick<std::string>({"x", " ", "1"});
        url = q.genWdtUrlWithSecret();
      } else {
        size_t i = url.find(hex(f.secret));
        PBT_CHECK(c, i != std::string::npos, "the url has no secret");
        i += c.draw(31);
        url[i] = url[i] == '0' ? '1' : '0';
      }
      Proc& s = sender(c, w, url, srcDir, f, h);
      checkFails(c, s, T);
      checkFails(c, r, T);
      noFiles();
      break;
    }
    case 3: {
      Proc& r = receiver(c, w, dst, f);
      std::string url = checkUrl(c, w, r, f);
      std::string bad = srcDir + (c.flip() ? "/nothing" : "x");
      if (c.chance(1, 3)) {
        bad = w.dir + "/file";
        writeAll(bad, "abc");
      }
      Args a = f.send;
      a.push_back("-directory=" + bad);
      a.push_back("-");
      Proc& s = w.start("sender", a);
      s.write(url + "\n");
      s.closeIn();
      checkFails(c, s, T);
      checkEnd(c, r, T);
      PBT_CHECK(c, e2e::readTree(dst).empty(), "files arrived from nowhere");
      break;
    }
    case 4: case 5: {
      std::vector<std::string> lines;
      Tree ok;
      for (auto& e : src) if (c.flip()) {
        lines.push_back(e.first);
        ok.insert(e);
      }
      if (kind == 4) {
        lines.push_back(c.pick<std::string>({"missing", "no/such/file", "only/below"}) + c.pick<std::string>({"", "\t10", "\t-1", "\t0"}));
      } else {
        auto it = src.begin();
        std::advance(it, c.draw(src.size() - 1));
        ok.erase(it->first);
        lines.erase(std::remove(lines.begin(), lines.end(), it->first), lines.end());
        lines.push_back(it->first + "\t" + std::to_string(it->second.size() + c.logRange(1, 5000)));
      }
      c.shuffle(lines);
      h.how = c.flip() ? 2 : 3;
      for (auto& l : lines) h.manifest += l + "\n";
      if (h.how == 2) {
        writeAll(w.dir + "/manifest", h.manifest);
        h.args.push_back("-manifest=" + w.dir + "/manifest");
      } else {
        h.args.push_back("-manifest=-");
      }
      c.note([&] { return "manifest: " + pbt::show(h.manifest, 400); });
      Proc& r = receiver(c, w, dst, f);
      std::string url = checkUrl(c, w, r, f);
      Proc& s = sender(c, w, url, srcDir, f, h);
      checkFails(c, s, T);
      checkEnd(c, r, T);
      break;
    }
    case 6: case 7: {
      Proc& r = receiver(c, w, dst, f);
      std::string url = checkUrl(c, w, r, f);
      if (kind == 6) {
        std::string m = w.dir + "/nosuch";
        if (c.chance(1, 3)) m = w.dir;  // a directory
        h.args.push_back("-manifest=" + m);
      } else {
        std::string any = src.begin()->first;
        std::string bad = c.pick<std::string>({"", "a\t1\t1\t1", any + "\tx", any + "\t1.5", any + "\t1 x", any + "\t99999999999999999999", any + "\t1\tmaybe"});
        h.how = c.flip() ? 2 : 3;
        std::vector<std::string> lines;
        for (auto& e : src) if (c.flip()) lines.push_back(e.first);
        lines.push_back(bad);
        c.shuffle(lines);
        for (auto& l : lines) h.manifest += l + "\n";
        if (h.how == 2) {
          writeAll(w.dir + "/manifest", h.manifest);
          h.args.push_back("-manifest=" + w.dir + "/manifest");
        } else {
          h.args.push_back("-manifest=-");
        }
        c.note([&] { return "manifest: " + pbt::show(h.manifest, 400); });
      }
      Proc& s = sender(c, w, url, srcDir, f, h);
      checkFails(c, s, T, false);
      checkStdout(c, s, "");
      checkFails(c, r, T);
      PBT_CHECK(c, e2e::readTree(dst).empty(), "files arrived although the manifest is unusable");
      break;
    }
    case 8: {
      f.secret = c.str(16, 16, "abcdefghij0123");
      std::string enc = "1:" + hex(f.secret), url;
      std::string rest = "&id=abc&iv_change_int=0&ports=1&recpv=32";
      switch (c.draw(12)) {
        case 0: url = "wdx://127.0.0.1?Enc=" + enc + rest; break;
        case 1: url = "wdt://?Enc=" + enc + rest; break;
        case 2: url = "wdt://[::1?Enc=" + enc + rest; break;
        case 3: url = "wdt://127.0.0.1:port?Enc=" + enc + rest; break;
        case 4: url = "wdt://127.0.0.1?Enc=" + enc + "%" + rest; break;
        case 5: url = "wdt://127.0.0.1?Enc=" + enc + "%zz" + rest; break;
        case 6: url = "wdt://127.0.0.1?Enc=" + enc + "0" + rest; break;
        case 7: url = "wdt://127.0.0.1?Enc=" + hex(f.secret) + rest; break;
        case 8: url = "wdt://127.0.0.1?Enc=0:" + hex(f.secret) + rest; break;
        case 9: url = "wdt://127.0.0.1?Enc=" + enc + "x" + rest; break;
        case 10: url = "wdt://127.0.0.1?=" + enc + rest; break;
        case 12: url = "wdt://127.0.0.1?Enc=" + enc + "&id=abc&iv_change_int=0&ports=1&recpv=" + c.pick<std::string>({"0", "-1", "1", "9", "-9223372036854775808"}); break;
        default: url = "wdt://127.0.0.1?Enc=" + enc + replaceOnce(rest, c.pick<std::string>({"ports=1", "recpv=32", "int=0"}), c.pick<std::string>({"ports=z", "recpv=z"})); break;
      }
      if (url.find("recpv=") == std::string::npos) c.discard();
      if (url.find("=z") == std::string::npos && url.find("ports=1&recpv=") == std::string::npos && url.find("recpv=32") == std::string::npos) c.discard();
      c.note([&] { return "url " + url; });
      Proc& s = sender(c, w, url, srcDir, f, h);
      bool parsed = WdtTransferRequest(url).errorCode == OK;
      checkFails(c, s, T, parsed);
      checkStdout(c, s, "");
      break;
    }
    case 9: {
      Args a = f.send;
      a.push_back("-directory=" + srcDir);
      a.push_back("-");
      Proc& s = w.start("sender", a);
      if (c.flip()) s.write("\n");
      s.closeIn();
      checkFails(c, s, T, false);
      PBT_EQ(c, s.status, (int)URI_PARSE_ERROR, "exit code without a url" << s.tail());
      break;
    }
    case 10: {
      bool abort = c.flip();
      if (abort) f.recv.push_back("-abort_after_seconds=1");
      setFlag(f.recv, "max_accept_retries", abort ? "300" : std::to_string(c.range(1, 10)));
      Proc& r = receiver(c, w, dst, f, {}, false);
      checkUrl(c, w, r, f);
      double t0 = e2e::now();
      checkFails(c, r, T);
      double dt = e2e::now() - t0;
      if (abort) PBT_CHECK(c, dt < 10, "aborted after " << dt << " s instead of 1");
      if (abort) PBT_CHECK(c, r.status == ABORT || r.status == ABORTED_BY_APPLICATION, "exit code " << r.status << " of an aborted receiver" << r.tail());
      break;
    }
    case 11: {
      bool isFile = c.flip();
      if (isFile) writeAll(dst, "in the way");
      else {
        e2e::mkdirs(dst);
        chmod(dst.c_str(), 0555);
      }
      Proc& r = receiver(c, w, dst, f, {}, false);
      std::string url;
      if (r.readLine(20, url)) {
        Proc& s = sender(c, w, url, srcDir, f, h);
        checkFails(c, s, T);
      }
      checkFails(c, r, T);
      if (isFile) PBT_EQ(c, readAll(dst), std::string("in the way"), "the file in the way");
      else chmod(dst.c_str(), 0755);
      break;
    }
    case 12: {
      auto it = src.begin();
      std::advance(it, c.draw(src.size() - 1));
      e2e::writeFile(dst + "/" + it->first, "already here");
      bool over = c.chance(1, 3);
      if (over) f.recv.push_back("-overwrite");
      Proc& r = receiver(c, w, dst, f);
      std::string url = checkUrl(c, w, r, f);
      Proc& s = sender(c, w, url, srcDir, f, h);
      if (over) {
        checkEnd(c, s, T);
        checkEnd(c, r, T);
        PBT_EQ(c, s.status, 0, "with -overwrite" << s.tail());
        PBT_EQ(c, r.status, 0, "with -overwrite" << r.tail());
        std::string d = e2e::diffTrees(src, e2e::readTree(dst));
        PBT_CHECK(c, d.empty(), "destination: " << d);
        break;
      }
      checkFails(c, s, T);
      checkFails(c, r, T);
      PBT_EQ(c, readAll(dst + "/" + it->first), std::string("already here"), "the file that was there");
      break;
    }
    default: {
      Args a;
      bool fail = true, usage = true;
      std::string out;
      switch (c.draw(6)) {
        case 0: a = {"-no_such_flag=1"}; break;
        case 1: a = {c.pick<std::string>({"wdt://x", "x", "--", "", "-x"})}; if (a[0] == "--") a.push_back("y"); usage = a[0] != "-x"; break;
        case 2: a = {"-num_ports=" + c.pick<std::string>({"abc", "1x", "99999999999", ""})}; break;
        case 3: a = {"-", "-"}; break;
        case 4: a = {"-help"}; fail = false; usage = false; break;
        case 5: a = {"-version"}; fail = false; usage = false; break;
        default: a = {"-overwrite=maybe"}; break;
      }
      bool put = c.flip();
      if (put) a.insert(a.begin(), "-directory=" + dst);
      Proc& p = w.start("command", a, w.dir);
      p.closeIn();
      checkEnd(c, p, T, false);
      if (fail) {
        PBT_CHECK(c, p.status != 0, "exit code 0" << p.tail());
        PBT_CHECK(c, p.buf.find("wdt://") == std::string::npos, "a receiver was started");
        if (usage) PBT_CHECK(c, p.err().find("Sample usage") != std::string::npos, "no usage" << p.tail());
        struct stat st;
        PBT_CHECK(c, stat(dst.c_str(), &st) != 0, "the directory was made");
      } else {
        PBT_EQ(c, p.status, 0, "exit code" << p.tail());
        PBT_CHECK(c, p.buf.find("Protocol version") != std::string::npos || p.buf.find("WDT") != std::string::npos || p.buf.find("version") != std::string::npos, "output: " << p.buf.substr(0, 300));
      }
    }
  }
  std::string d = e2e::diffTrees(src, e2e::readTree(srcDir));
  PBT_CHECK(c, d.empty(), "the source is changed: " << d);
  checkNoSecret(c, w, f.secret);
}
// Transfers which are stopped while they run.
static void interrupted(Case& c) {
  c.setDeadline(150);
  World w(c);
  Tree src;
  size_t n = c.range(1, 4);
  for (size_t i = 0; i < n; i++) src["f" + std::to_string(i)] = c.blob(600000);
  Conf f = genConf(c, false);
  shortTimeouts(f);
  e2e::writeTree(w.dir + "/src", src);
  std::string dst = w.dir + "/dst", srcDir = w.dir + "/src";
  f.send.push_back("-avg_mbytes_per_sec=0.1");  // at least 5 seconds
  f.send.push_back("-max_mbytes_per_sec=0.2");
  f.send.push_back("-throttler_bucket_limit=0.1");
  f.send.push_back("-block_size_mbytes=" + c.pick<std::string>({"0.1", "-1"}));
  f.send.push_back("-buffer_size=16384");
  size_t kind = c.chance(1, 4) ? 4 : c.draw(3);
  static const char* kinds[] = {"sender aborts", "receiver aborts", "sender is killed", "receiver is killed", "ports are taken"};
  c.label(kinds[kind]);
  c.nontrivial();
  Choice h;
  h.want = src;
  const double T = 60;
  if (kind == 4) {
    // -static_ports with some of the ports taken
    Conf g = f;
    g.send.resize(g.send.size() - 5);
    bool listening = c.flip();
    int ports = c.range(1, 4), at = c.draw(ports - 1), base = 0;
    std::unique_ptr<Busy> b;
    for (int i = 0; i < 50 && !b; i++) {
      base = 10000 + (getpid() * 37 + i * 101 + (int)c.index() * 13) % 20000;
      bool free = true;
      for (int k = 0; k < ports && free; k++) if (Busy(base + k, false).fd < 0) free = false;
      if (!free) continue;
      b.reset(new Busy(base + at, listening));
      if (b->fd < 0) b.reset();
    }
    if (!b) c.discard();
    bool strict = c.flip();
    Args more{"-static_ports", "-start_port=" + std::to_string(base), "-num_ports=" + std::to_string(ports)};
    for (auto it = g.recv.begin(); it != g.recv.end();)
      if (it->find("-start_port") == 0 || it->find("-num_ports") == 0) it = g.recv.erase(it);
      else ++it;
    if (strict) more.push_back("-treat_fewer_port_as_error");
    Proc& r = receiver(c, w, dst, g, more);
    if (strict || ports == 1) {
      checkFails(c, r, T, false);
      checkStdout(c, r, "");
      if (strict && ports > 1) PBT_CHECK(c, r.status == FEWER_PORTS || r.status == ERROR, "exit code " << r.status << r.tail());
      return;
    }
    std::string url;
    PBT_CHECK(c, r.readLine(20, url), "no url although only one port is taken" << r.tail());
    WdtTransferRequest q(url);
    // (the port which is taken stays in the url: its thread tries again when the transfer starts)
    PBT_EQ(c, (int)q.errorCode, (int)OK, "the printed url: " << url);
    for (int k = 0; k < ports; k++)
      PBT_CHECK(c, k == at || std::count(q.ports.begin(), q.ports.end(), base + k) == 1, "port " << base + k << " is not in " << url);
    for (int p : q.ports) PBT_CHECK(c, p >= base && p < base + ports, "port " << p << " in " << url);
    f.secret = q.encryptionData.getSecret();
    Proc& s = sender(c, w, url, srcDir, g, h);
    checkEnd(c, s, T);
    checkEnd(c, r, T);
    PBT_EQ(c, s.status, 0, "sender with fewer ports" << s.tail());
    PBT_EQ(c, r.status, 0, "receiver with fewer ports" << r.tail());
    std::string d = e2e::diffTrees(src, e2e::readTree(dst));
    PBT_CHECK(c, d.empty(), "destination: " << d);
    checkNoSecret(c, w, f.secret);
    return;
  }
  if (kind == 0) f.send.push_back("-abort_after_seconds=1");
  if (kind == 1) f.recv.push_back("-abort_after_seconds=2");
  Proc& r = receiver(c, w, dst, f);
  std::string url = checkUrl(c, w, r, f);
  Proc& s = sender(c, w, url, srcDir, f, h);
  double t0 = e2e::now();
  if (kind >= 2) {
    e2e::msleep(c.range(0, 2500));
    Proc& victim = kind == 2 ? s : r;
    PBT_CHECK(c, !victim.poll1(), "the " << victim.who << " ended early" << victim.tail());
    kill(victim.pid, SIGKILL);
    Proc& other = kind == 2 ? r : s;
    checkFails(c, other, T);
    victim.wait(T);
  } else {
    checkFails(c, s, T);
    checkFails(c, r, T);
    Proc& a = kind == 0 ? s : r;
    std::string e = a.err();
    PBT_CHECK(c, e.find("Requesting abort") != std::string::npos, "no abort was requested" << a.tail());
    double dt = e2e::now() - t0;
    PBT_CHECK(c, dt < 30, "the transfer ends " << dt << " s after its start");
  }
  std::string d = e2e::diffTrees(src, e2e::readTree(srcDir));
  PBT_CHECK(c, d.empty(), "the source is changed: " << d);
  checkNoSecret(c, w, f.secret);
}
// Receivers which serve more than one transfer, go to the background, or continue an earlier transfer.
static void lifetime(Case& c) {
  c.setDeadline(200);
  World w(c);
  Conf f = genConf(c, false);
  shortTimeouts(f);
  std::string dst = w.dir + "/dst";
  const double T = 60;
  size_t kind = c.draw(2);
  static const char* kinds[] = {"daemon", "fork", "recovery"};
  c.label(kinds[kind]);
  if (kind == 0) {
    for (auto* a : {&f.recv}) a->erase(std::remove(a->begin(), a->end(), std::string("-start_port=0")), a->end());
    Proc& r = receiver(c, w, dst, f, {"-run_as_daemon", "-start_port=0", "-overwrite"});
    std::string url = checkUrl(c, w, r, f);
    Tree want;
    int n = c.range(1, 4);
    for (int i = 0; i < n; i++) {
      Tree src = genSrc(c, false, 100000);
      std::string sd = w.dir + "/src" + std::to_string(i);
      if (c.chance(1, 3)) {  // a sender which has to fail, in between
        Tree one{{"bad" + std::to_string(i), c.blob(2000)}};
        e2e::writeTree(sd + "bad", one);
        WdtTransferRequest q(url);
        q.transferId += "x";
        Choice h;
        Proc& s = sender(c, w, q.genWdtUrlWithSecret(), sd + "bad", f, h);
        checkFails(c, s, T);
        PBT_CHECK(c, !r.poll1(), "the daemon ended after a sender with a wrong transfer id" << r.tail());
        e2e::msleep(2500);  // its other connections time out
        c.label("daemon survives a bad sender");
      }
      // a later transfer must not turn a file into a directory or back
      Tree clean;
      for (auto& e : src) {
        std::string p = "t" + std::to_string(i) + "/" + e.first;
        if (c.chance(1, 3)) p = "shared" + std::to_string(c.draw(2));
        clean[p] = e.second;
      }
      e2e::writeTree(sd, clean);
      e2e::mkdirs(sd + ".list");
      Choice h = genChoice(c, clean, sd + ".list");
      c.note([&] { return "transfer " + std::to_string(i) + ": " + e2e::showTree(h.want); });
      Proc& s = sender(c, w, url, sd, f, h);
      checkEnd(c, s, T);
      PBT_EQ(c, s.status, 0, "transfer " << i << " to the daemon" << s.tail() << r.tail());
      PBT_CHECK(c, !r.poll1(), "the daemon ended" << r.tail());
      for (auto& e : h.want) want[e.first] = e.second;
      std::string d;
      for (int k = 0; k < 100; k++) {  // the sender may be told before the last fsync
        d = e2e::diffTrees(want, e2e::readTree(dst));
        if (d.empty()) break;
        e2e::msleep(50);
      }
      PBT_CHECK(c, d.empty(), "destination after transfer " << i << ": " << d << r.tail());
      if (!h.want.empty() && n > 1) c.nontrivial();
    }
    checkStdout(c, r, url + "\n");
    checkNoSecret(c, w, f.secret);
    return;
  }
  Tree src = genSrc(c, false);
  std::string sd = w.dir + "/src";
  if (kind == 1) {
    e2e::writeTree(sd, src);
    Choice h = genChoice(c, src, w.dir);
    Proc& r = receiver(c, w, dst, f, {"-fork"});
    std::string url = checkUrl(c, w, r, f);
    PBT_CHECK(c, r.wait(20), "the parent of the forked receiver does not end" << r.tail());
    PBT_EQ(c, r.status, 0, "exit code of the parent of the forked receiver" << r.tail());
    bool alone = c.chance(1, 4);
    if (!alone) {
      Proc& s = sender(c, w, url, sd, f, h);
      checkEnd(c, s, T);
      PBT_EQ(c, s.status, 0, "sender to a forked receiver" << s.tail() << r.tail());
    }
    // the child is adopted by this process
    int st = 0;
    double end = e2e::now() + T;
    pid_t got = 0;
    while ((got = waitpid(-r.pid, &st, WNOHANG)) == 0 && e2e::now() < end) e2e::msleep(10);
    PBT_CHECK(c, got > 0, "the forked receiver does not end" << r.tail());
    PBT_CHECK(c, WIFEXITED(st), "the forked receiver crashes" << r.tail());
    if (alone) {
      PBT_CHECK(c, WEXITSTATUS(st) != 0, "a forked receiver without a sender exits with 0" << r.tail());
    } else {
      PBT_EQ(c, WEXITSTATUS(st), 0, "exit code of the forked receiver" << r.tail());
      std::string d = e2e::diffTrees(h.want, e2e::readTree(dst));
      PBT_CHECK(c, d.empty(), "destination: " << d);
    }
    checkStdout(c, r, url + "\n");
    checkNoSecret(c, w, f.secret);
    c.nontrivial();
    return;
  }
  // an interrupted transfer is continued under its recovery id
  size_t big = c.range(200000, 600000);
  src["big"] = c.blob(big);
  e2e::writeTree(sd, src);
  Choice h;
  h.want = src;
  f.resume = true;
  std::string rid = c.str(1, 12, "abcXYZ-_09");
  f.recv.push_back("-recovery_id=" + rid);
  if (c.chance(1, 3)) f.recv.push_back("-resume_using_dir_tree"), f.recv.push_back("-disable_preallocation");
  f.recv.push_back("-transfer_log_write_interval_ms=20");
  f.send.push_back("-block_size_mbytes=" + c.pick<std::string>({"0.05", "0.01", "-1"}));
  int runs = c.range(0, 2);
  std::string secretBefore = f.secret;
  for (int i = 0; i <= runs; i++) {
    Conf g = f;
    bool last = i == runs;
    if (!last) {
      g.send.push_back("-avg_mbytes_per_sec=0.1");
      g.send.push_back("-max_mbytes_per_sec=0.2");
      g.send.push_back("-throttler_bucket_limit=0.1");
      g.send.push_back("-buffer_size=16384");
    }
    Proc& r = receiver(c, w, dst, g);
    g.secret = secretBefore;
    std::string url = checkUrl(c, w, r, g);
    Proc& s = sender(c, w, url, sd, g, h);
    if (!last) {
      e2e::msleep(c.range(100, 1500));
      bool both = c.flip();
      if (both || c.flip()) kill(r.pid, SIGKILL);
      if (both || !r.poll1()) kill(s.pid, SIGKILL);
      s.wait(T);
      PBT_CHECK(c, r.wait(T), "the receiver does not end" << r.tail());
    } else {
      checkEnd(c, s, T);
      checkEnd(c, r, T);
      PBT_EQ(c, s.status, 0, "sender of run " << i << s.tail());
      PBT_EQ(c, r.status, 0, "receiver of run " << i << r.tail());
      std::string d = e2e::diffTrees(src, e2e::readTree(dst));
      PBT_CHECK(c, d.empty(), "destination: " << d << r.tail());
    }
    checkNoSecret(c, w, g.secret);
  }
  Proc& p = w.start("parser", {"-parse_transfer_log", "-directory=" + dst});
  p.closeIn();
  checkEnd(c, p, T, false);
  PBT_EQ(c, p.status, 0, "exit code of -parse_transfer_log" << p.tail());
  PBT_CHECK(c, p.err().find(rid) != std::string::npos || p.buf.find(rid) != std::string::npos, "-parse_transfer_log does not show the recovery id " << rid << p.tail());
  if (runs) c.nontrivial();
}

int main(int argc, char** argv) {
  std::vector<pbt::Sub> subs;
  auto add = [&](const char* n, void (*fn)(Case&), uint64_t q, uint64_t t, const char* rule) {
    pbt::Sub s;
    s.name = n;
    s.fn = fn;
    s.quick = q;
    s.thorough = t;
    s.caseTimeout = 150;
    s.concurrent = true;
    s.rule = rule;
    subs.push_back(s);
  };
  add("transfers", transfers, 300, 6000, "files were selected");
  add("failures", failures, 250, 5000, "the transfer can not succeed, or the command line is wrong");
  add("interrupted", interrupted, 80, 1500, "one side was stopped or a port was taken");
  add("lifetime", lifetime, 80, 1500, "several transfers to a daemon, a forked receiver, or at least one killed run before");
  return pbt::main(argc, argv, "C30", subs);
}
