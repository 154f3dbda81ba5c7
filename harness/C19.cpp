// variant: asan
// libs: core
// C19: the encrypted channel.  Two real WdtSockets talk through a forwarding thread that cuts the
// stream at generated places; every byte, status, tag callback and the wire itself are checked.
// Recorded sessions are tampered with and fed to a fresh receiving socket.
#include <wdt/util/WdtSocket.h>
#include <fcntl.h>
#include <openssl/evp.h>
#include <poll.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <deque>
#include <thread>
#include <unordered_set>
#include "pbt.h"
using namespace facebook::wdt;
using pbt::Case;
namespace {
struct NoAbort : IAbortChecker {
  bool shouldAbort() const override { return false; }
} noAbort;

EncryptionParams params(EncryptionType t, const std::string& key) { return t == ENC_NONE ? EncryptionParams() : EncryptionParams(t, key); }
const char* tn(EncryptionType t) { return t == ENC_NONE ? "none" : t == ENC_AES128_CTR ? "ctr" : "gcm"; }

struct Fd {
  int fd{-1};
  Fd() = default;
  Fd(const Fd&) = delete;
  void close() {
    if (fd >= 0) ::close(fd);
    fd = -1;
  }
  ~Fd() { close(); }
};

struct Side {
  WdtOptions opt;
  std::unique_ptr<ThreadCtx> ctx;
  std::unique_ptr<WdtSocket> s;
  std::function<void()> onTag;
  Side(const EncryptionParams& p, int64_t ivInt, int tagInt, int timeoutMs) {
    opt.encryption_tag_interval_bytes = tagInt;
    opt.read_timeout_millis = opt.write_timeout_millis = timeoutMs;
    opt.abort_check_interval_millis = 2;
    ctx = std::make_unique<ThreadCtx>(opt, false);
    ctx->setAbortChecker(&noAbort);
    s = std::make_unique<WdtSocket>(*ctx, 7, p, ivInt, [this] {
      if (onTag) onTag();
    });
  }
  void attach(int fd) {
    s->setFd(fd);
    s->setSocketTimeouts();
  }
};

// Forwards bytes between two descriptors, never more than the next piece of the script at once.
struct Pump {
  int f[2];
  std::atomic<bool> stop{false};
  std::string wire[2];  // what came in from side 0 and side 1
  std::vector<int> cuts;
  std::thread th;
  Pump(int a, int b, std::vector<int> c) : cuts(std::move(c)) {
    f[0] = a;
    f[1] = b;
    for (int x : f) fcntl(x, F_SETFL, O_NONBLOCK);
    th = std::thread([this] { run(); });
  }
  void run() {
    std::string q[2];
    bool eof[2]{false, false}, fin[2]{false, false};
    size_t k = 0;
    while (!stop) {
      struct pollfd p[2];
      for (int i = 0; i < 2; i++) {
        p[i].fd = f[i];
        p[i].events = (eof[i] ? 0 : POLLIN) | (q[1 - i].empty() ? 0 : POLLOUT);
        p[i].revents = 0;
        if (!p[i].events) p[i].fd = -1;
      }
      if (poll(p, 2, 2) <= 0) continue;
      for (int i = 0; i < 2; i++) {
        if (p[i].fd >= 0 && (p[i].revents & (POLLIN | POLLHUP | POLLERR)) && !eof[i]) {
          char b[65536];
          ssize_t r = ::read(f[i], b, sizeof b);
          if (r > 0) {
            q[i].append(b, r);
            wire[i].append(b, r);
          } else if (r == 0 || (errno != EAGAIN && errno != EINTR))
            eof[i] = true;
        }
      }
      for (int i = 0; i < 2; i++) {
        if (!q[i].empty()) {
          size_t n = q[i].size();
          if (!cuts.empty()) n = std::min<size_t>(n, cuts[k++ % cuts.size()]);
          ssize_t w = ::send(f[1 - i], q[i].data(), n, MSG_NOSIGNAL | MSG_DONTWAIT);
          if (w > 0) q[i].erase(0, w);
          else if (w < 0 && errno != EAGAIN && errno != EINTR)
            q[i].clear();
        }
        if (eof[i] && q[i].empty() && !fin[i]) {
          ::shutdown(f[1 - i], SHUT_WR);
          fin[i] = true;
        }
      }
    }
  }
  void join() {
    stop = true;
    if (th.joinable()) th.join();
  }
  ~Pump() {
    join();
    ::close(f[0]);
    ::close(f[1]);
  }
};

struct Hash16 {
  size_t operator()(const std::string& s) const { return std::hash<std::string>()(s); }
};
// adds every 16 byte window of s; false if one was there before
bool addWindows(std::unordered_set<std::string>& set, const std::string& s, size_t step = 1) {
  for (size_t i = 0; i + 16 <= s.size(); i += step)
    if (!set.insert(s.substr(i, 16)).second) return false;
  return true;
}

std::string genKey(Case& c) {
  std::string k = c.chance(1, 6) ? std::string(16, (char)c.draw(255)) : c.blob(16);
  k.resize(16);
  return k;
}
EncryptionType genType(Case& c) { return (EncryptionType)c.pick({2, 2, 1, 0}); }
int genTagInterval(Case& c) {
  switch (c.weighted({3, 3, 1, 1})) {
    case 0: return c.range(1, 40);
    case 1: return c.logRange(1, 70000);
    case 2: return 0;
    default: return c.pick({4 * 1024 * 1024, INT32_MAX, 16, 4096});
  }
}
int64_t genIvInterval(Case& c, int tagInt) {
  switch (c.weighted({2, 3, 2, 1})) {
    case 0: return 0;
    case 1: return c.logRange(1, 3000);
    case 2: return std::max<int64_t>(1, (int64_t)tagInt * c.range(1, 6) + c.range(-2, 2));
    default: return (int64_t)32 << 30;
  }
}
std::string plainText(Case& c, size_t n, bool zeros) { return zeros ? std::string(n, 0) : c.blob(n); }

// Both directions, any split of writes and reads, several sessions over the same two sockets.
void session(Case& c) {
  EncryptionType type = genType(c);
  std::string key = genKey(c);
  int tagInt[2] = {genTagInterval(c), 0};
  tagInt[1] = c.chance(1, 3) ? genTagInterval(c) : tagInt[0];
  int64_t ivInt = genIvInterval(c, tagInt[0]);
  auto P = params(type, key);
  Side A(P, ivInt, tagInt[0], 20000), B(P, ivInt, tagInt[1], 20000);
  Side* side[2] = {&A, &B};
  int rounds = c.chance(1, 3) ? c.range(2, 3) : 1;
  bool zeros = c.chance(1, 3);
  std::unordered_set<std::string> windows;  // of everything seen on the wire under this key
  c.note([&] {
    return std::string(tn(type)) + " tag intervals " + std::to_string(tagInt[0]) + "," + std::to_string(tagInt[1]) + " key change " + std::to_string(ivInt) + (zeros ? " zeros" : "");
  });
  c.label(std::string("type:") + tn(type));
  bool ivSeen = false, tagSeen = false;
  for (int r = 0; r < rounds; r++) {
    int pa[2], pb[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, pa) || socketpair(AF_UNIX, SOCK_STREAM, 0, pb)) c.discard();
    A.attach(pa[0]);
    B.attach(pb[0]);
    std::vector<int> cuts;
    int nc = c.range(0, 4);
    for (int i = 0; i < nc; i++) cuts.push_back(c.logRange(1, 60000));
    int small = 0;
    for (int x : cuts) small = small ? std::min(small, x) : x;
    Pump pump(pa[1], pb[1], cuts);
    int64_t maxTotal = c.chance(1, 8) ? 200000 : 6000;
    if (small && small < 20) maxTotal = std::min<int64_t>(maxTotal, 500);
    std::string sent[2], got[2];  // sent[i] by side i, got[i] by side i
    int64_t tags[2] = {0, 0};
    for (int i = 0; i < 2; i++) side[i]->onTag = [&, i] { tags[i]++; };
    auto expectTags = [&](int reader) -> int64_t {
      int ti = tagInt[1 - reader];
      if (type != ENC_AES128_GCM || ti <= 0 || got[reader].empty()) return 0;
      return ((int64_t)got[reader].size() - 1) / ti;
    };
    auto doWrite = [&](int i, int64_t n) {
      // a tag per byte makes a system call per byte
      if (type == ENC_AES128_GCM && tagInt[i] > 0) n = std::max<int64_t>(1, std::min<int64_t>(n, (int64_t)tagInt[i] * 80));
      std::string d = plainText(c, n, zeros), buf = d;
      bool retry = c.flip();
      c.note([&] { return "side " + std::to_string(i) + " writes " + std::to_string(n); });
      int w = side[i]->s->write(&buf[0], n, retry);
      PBT_EQ(c, w, (int)n, "write result");
      PBT_EQ(c, errorCodeToStr(side[i]->s->getWriteErrCode()), std::string("OK"), "write status");
      sent[i] += d;
    };
    auto doRead = [&](int i, int64_t n, bool full) {
      std::string buf(n, 'x');
      c.note([&] { return "side " + std::to_string(i) + " reads " + std::to_string(n) + (full ? " full" : ""); });
      int r2 = side[i]->s->read(&buf[0], n, full);
      const std::string& src = sent[1 - i];
      if (full) PBT_EQ(c, r2, (int)n, "read of bytes the other side has written");
      PBT_CHECK(c, r2 >= 1 && r2 <= n, "read of " << n << " returned " << r2 << " with " << errorCodeToStr(side[i]->s->getReadErrCode()));
      PBT_EQ(c, errorCodeToStr(side[i]->s->getReadErrCode()), std::string("OK"), "read status");
      PBT_CHECK(c, src.compare(got[i].size(), r2, buf, 0, r2) == 0, "side " << i << " read other bytes at offset " << got[i].size() << " length " << r2);
      got[i].append(buf, 0, r2);
      PBT_EQ(c, tags[i], expectTags(i), "tags verified after reading " << got[i].size() << " bytes");
    };
    int ops = c.range(1, 14);
    for (int k = 0; k < ops; k++) {
      int i = c.draw(1);
      int64_t avail = (int64_t)sent[1 - i].size() - (int64_t)got[i].size();
      switch (c.weighted({5, 5, 1})) {
        case 0:
          if ((int64_t)sent[i].size() < maxTotal) {
            int64_t n = c.logRange(1, maxTotal);
            if (tagInt[i] > 0 && c.chance(1, 4)) {  // end close to a tag
              int64_t left = tagInt[i] - (int64_t)(sent[i].size() % tagInt[i]);
              n = std::max<int64_t>(1, std::min<int64_t>(left + c.range(-1, 1), maxTotal));
            }
            doWrite(i, n);
          }
          break;
        case 1:
          if (avail > 0) {
            int64_t n = c.logRange(1, avail);
            if (c.chance(1, 5)) n = avail;
            doRead(i, n, c.flip());
          }
          break;
        case 2:  // nothing there: a timeout that does not spoil the socket
          if (avail == 0) {
            char b[40];
            int n = c.range(1, 40);
            int before = tagInt[1 - i] > 0 && type == ENC_AES128_GCM && !got[i].empty() && got[i].size() % tagInt[1 - i] == 0;
            if (before) break;  // would wait for the tag, which is not retried
            int r2 = side[i]->s->readWithTimeout(b, n, 3, c.flip());
            PBT_EQ(c, r2, -1, "read when nothing was written");
            PBT_EQ(c, errorCodeToStr(side[i]->s->getReadErrCode()), std::string("WDT_TIMEOUT"), "read when nothing was written");
            c.label("timeout then continue");
          }
          break;
      }
    }
    bool clean = r + 1 == rounds || !c.chance(1, 3);
    if (clean) {
      for (int i = 0; i < 2; i++)
        if (sent[i].empty()) doWrite(i, c.logRange(1, 50));
      for (int i = 0; i < 2; i++)
        while (got[i].size() < sent[1 - i].size()) {
          int64_t avail = sent[1 - i].size() - got[i].size();
          doRead(i, c.flip() ? avail : c.logRange(std::max<int64_t>(1, avail / 20), avail), c.flip());
        }
      int first = c.draw(1), how = c.draw(2);
      Side &X = *side[first], &Y = *side[1 - first];
      // the way sender and receiver finish: one announces its end, the other does, both close
      PBT_EQ(c, errorCodeToStr(X.s->shutdownWrites()), std::string("OK"), "shutdown of writes");
      if (how == 0) PBT_EQ(c, errorCodeToStr(Y.s->expectEndOfStream()), std::string("OK"), "end of stream");
      if (how == 2) PBT_EQ(c, errorCodeToStr(Y.s->shutdownWrites()), std::string("OK"), "shutdown of writes");
      PBT_EQ(c, errorCodeToStr(Y.s->closeConnection()), std::string("OK"), "close");
      if (how != 1) PBT_EQ(c, errorCodeToStr(X.s->expectEndOfStream()), std::string("OK"), "end of stream");
      PBT_EQ(c, errorCodeToStr(X.s->closeConnection()), std::string("OK"), "close");
    } else {
      c.label("cut short");
      A.s->closeNoCheck();
      B.s->closeNoCheck();
    }
    PBT_EQ(c, A.s->getFd(), -1, "");
    PBT_EQ(c, B.s->getFd(), -1, "");
    pump.join();
    for (int i = 0; i < 2; i++) {
      const std::string& w = pump.wire[i];
      if (type == ENC_NONE) {
        if (clean) PBT_CHECK(c, w == sent[i], "unencrypted bytes are changed on the wire");
        continue;
      }
      if (sent[i].size() >= 16 && w.size() >= 16) {
        std::unordered_set<std::string> pw;
        for (size_t k = 0; k + 16 <= sent[i].size(); k += 16) pw.insert(sent[i].substr(k, 16));
        for (size_t k = 0; k + 16 <= w.size(); k++) PBT_CHECK(c, !pw.count(w.substr(k, 16)), "16 bytes of plain text on the wire at " << k);
      }
      // zeros come out as key stream, which must never repeat, within or across sessions and directions
      if (zeros && w.size() < 30000) PBT_CHECK(c, addWindows(windows, w), "the key stream repeats");
      int ti = type == ENC_AES128_GCM ? tagInt[i] : 0;
      if (ti > 0 && (int64_t)sent[i].size() > ti) {
        tagSeen = true;
        if (ivInt && (int64_t)sent[i].size() > ivInt) ivSeen = true;
      }
      if (clean) {
        int64_t n = sent[i].size(), t = ti > 0 ? (n - 1) / ti : 0;
        // settings, data, tags (one more at the end), and changed vectors
        int64_t base = 23 + n + 16 * t + (type == ENC_AES128_GCM ? 16 : 0);
        int64_t ivs = ((int64_t)w.size() - base) / 16;
        PBT_CHECK(c, ((int64_t)w.size() - base) % 16 == 0 && ivs >= 0 && ivs <= t, "wire length " << w.size() << " for " << n << " bytes and " << t << " tags");
        if (!ivInt || ti <= 0) PBT_EQ(c, ivs, (int64_t)0, "changes of the vector though switched off");
        else if (ti <= ivInt) {
          // no vector is used for more than the interval
          int64_t per = ivInt / ti * ti;
          PBT_CHECK(c, ivs >= (n - 1) / per, "only " << ivs << " changes of the vector in " << n << " bytes, interval " << ivInt << " tags every " << ti);
        }
      }
    }
  }
  if (tagSeen) c.label("tags inside");
  if (ivSeen) c.label("key changes");
  if (type != ENC_NONE) c.nontrivial();
}

struct Feeder {
  int fd;
  std::string data;
  std::thread th;
  Feeder(int f, std::string d) : fd(f), data(std::move(d)) {
    th = std::thread([this] {
      size_t o = 0;
      while (o < data.size()) {
        ssize_t w = ::send(fd, data.data() + o, data.size() - o, MSG_NOSIGNAL);
        if (w <= 0) break;
        o += w;
      }
      ::shutdown(fd, SHUT_WR);
    });
  }
  ~Feeder() {
    th.join();
    ::close(fd);
  }
};
struct Collector {
  int fd;
  std::string data;
  std::thread th;
  explicit Collector(int f) : fd(f) {
    th = std::thread([this] {
      char b[65536];
      ssize_t r;
      while ((r = ::read(fd, b, sizeof b)) > 0) data.append(b, r);
    });
  }
  std::string get() {
    if (th.joinable()) th.join();
    return data;
  }
  ~Collector() {
    get();
    ::close(fd);
  }
};

std::string record(Case& c, const EncryptionParams& P, int64_t ivInt, int tagInt, const std::string& plain) {
  int p[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) c.discard();
  Side A(P, ivInt, tagInt, 20000);
  A.attach(p[0]);
  Collector col(p[1]);
  size_t o = 0;
  while (o < plain.size()) {
    size_t n = c.flip() ? plain.size() - o : c.logRange(1, plain.size() - o);
    std::string b = plain.substr(o, n);
    PBT_EQ(c, A.s->write(&b[0], n), (int)n, "write");
    o += n;
  }
  PBT_EQ(c, errorCodeToStr(A.s->shutdownWrites()), std::string("OK"), "shutdown of writes");
  std::string w = col.get();
  A.s->closeNoCheck();
  return w;
}
struct Outcome {
  bool error{false};
  std::string got;
  int64_t tags{0};
  std::string what;
};
// feeds a recorded stream to a fresh receiving socket which wants n bytes
Outcome receive(Case& c, const EncryptionParams& P, int64_t ivInt, const std::string& wire, size_t n, const std::string* orig, size_t firstRead) {
  Outcome o;
  int p[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) c.discard();
  Side B(P, ivInt, 0, 20000);
  B.attach(p[0]);
  Feeder f(p[1], wire);
  std::string cur;
  char* curBuf = nullptr;
  size_t base = 0;
  B.onTag = [&] {
    o.tags++;
    if (!orig) return;
    // everything decrypted up to a verified tag is what was sent
    size_t have = B.s->getNumRead();
    PBT_CHECK(c, have <= orig->size() && orig->compare(base, have - base, curBuf, have - base) == 0, "tag accepted after " << have << " bytes although these bytes differ from what was sent");
  };
  while (o.got.size() < n) {
    size_t k = firstRead ? std::min(firstRead, n - o.got.size()) : c.flip() ? n - o.got.size() : c.logRange(1, n - o.got.size());
    cur.assign(k, 'x');
    curBuf = &cur[0];
    base = o.got.size();
    bool full = c.flip();
    int r = B.s->read(curBuf, k, full);
    if (r > 0) o.got.append(cur, 0, r);
    if (r <= 0 || (full && r < (int)k)) {
      o.error = true;
      o.what = "read of " + std::to_string(k) + " returned " + std::to_string(r) + " with " + errorCodeToStr(B.s->getReadErrCode());
      PBT_CHECK(c, r < (int)k, "read returned more than asked for");
      B.s->closeNoCheck();
      return o;
    }
  }
  ErrorCode e = c.flip() ? B.s->expectEndOfStream() : OK;
  if (e == OK) e = B.s->closeConnection();
  else
    B.s->closeNoCheck();
  o.error = e != OK;
  o.what = "end of stream " + errorCodeToStr(e);
  return o;
}

// OpenSSL takes the length of the GCM vector back to 12 when the cipher is given again, as the code
// under test does; which part of the random vector takes part is not the subject here.
size_t gcmIvLen = 12;
std::string refCrypt(EncryptionType t, const std::string& key, std::string iv, const std::string& in, std::string* tag) {
  if (t == ENC_AES128_GCM) iv.resize(gcmIvLen);
  EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new();
  std::string out(in.size() + 16, 0);
  int l = 0, l2 = 0;
  if (t == ENC_AES128_GCM) {
    EVP_EncryptInit_ex(x, EVP_aes_128_gcm(), nullptr, nullptr, nullptr);
    EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_GCM_SET_IVLEN, iv.size(), nullptr);
    EVP_EncryptInit_ex(x, nullptr, nullptr, (const uint8_t*)key.data(), (const uint8_t*)iv.data());
  } else
    EVP_EncryptInit_ex(x, EVP_aes_128_ctr(), nullptr, (const uint8_t*)key.data(), (const uint8_t*)iv.data());
  EVP_EncryptUpdate(x, (uint8_t*)&out[0], &l, (const uint8_t*)in.data(), in.size());
  EVP_EncryptFinal_ex(x, (uint8_t*)&out[l], &l2);
  if (tag) {
    tag->assign(16, 0);
    EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_GCM_GET_TAG, 16, &(*tag)[0]);
  }
  EVP_CIPHER_CTX_free(x);
  out.resize(in.size());
  return out;
}

// places in a recorded stream that the authentication does not cover: the announcement of the tag
// interval, and the part of each vector that the cipher leaves out
std::vector<bool> uncovered(size_t wire, size_t n, int ti, int64_t ivInt) {
  std::vector<bool> u(wire, false);
  auto vec = [&](size_t at) {
    for (size_t k = gcmIvLen; k < 16; k++) u.at(at + k) = true;
  };
  for (size_t k = 0; k < 3; k++) u[k] = true;
  for (size_t k = 19; k < 23; k++) u[k] = true;
  vec(3);
  if (ti <= 0) return u;
  size_t at = 23, used = 0;
  for (size_t o = ti; o < n; o += ti) {
    at += ti + 16;
    used += ti;
    if (ivInt && (int64_t)used + ti > ivInt) {
      vec(at);
      at += 16;
      used = 0;
    }
  }
  return u;
}

// The stretches of a recorded stream between two changes of the vector, with the bytes that
// authentication does not cover blanked.
std::vector<std::string> stretches(std::string w, size_t n, int ti, int64_t ivInt) {
  auto u = uncovered(w.size(), n, ti, ivInt);
  for (size_t i = 0; i < w.size(); i++)
    if (u[i]) w[i] = 0;
  std::vector<size_t> start{3};
  size_t at = 23, used = 0;
  if (ti > 0)
    for (size_t o = ti; o < n; o += ti) {
      at += ti + 16;
      used += ti;
      if (ivInt && (int64_t)used + ti > ivInt) {
        start.push_back(at);
        at += 16;
        used = 0;
      }
    }
  std::vector<std::string> r;
  for (size_t k = 0; k < start.size(); k++) r.push_back(w.substr(start[k], (k + 1 < start.size() ? start[k + 1] : w.size()) - start[k]));
  return r;
}

void tamper(Case& c) {
  std::string key = genKey(c);
  int tagInt = genTagInterval(c);
  int64_t ivInt = genIvInterval(c, tagInt);
  int64_t maxN = tagInt > 0 ? std::min<int64_t>(4000, (int64_t)tagInt * 60) : 4000;
  size_t n = c.logRange(1, std::max<int64_t>(maxN, 1));
  std::string plain = plainText(c, n, c.chance(1, 4));
  auto P = params(ENC_AES128_GCM, key);
  std::string w = record(c, P, ivInt, tagInt, plain), t = w;
  const size_t H = 23;
  PBT_CHECK(c, w.size() >= H + n + 16, "wire of " << w.size() << " bytes for " << n);
  auto pos = [&](size_t limit) -> size_t {  // a place, often close to the frame's edges
    switch (c.weighted({4, 1, 1, 2})) {
      case 0: return c.draw(limit);
      case 1: return std::min<size_t>(limit, c.draw(H));
      case 2: return limit - std::min<size_t>(limit, c.draw(34));
      default: {
        if (tagInt <= 0) return c.draw(limit);
        size_t unit = tagInt + 16, base = H + unit * c.draw(std::max<size_t>(1, limit / unit));
        int64_t q = (int64_t)base + c.range(-18, 18);
        return std::min<size_t>(limit, std::max<int64_t>(0, q));
      }
    }
  };
  int kind = c.weighted({6, 3, 3, 3, 2, 2, 2, 1});
  std::string what, w2;
  switch (kind) {
    case 0: {
      size_t p = pos(w.size() - 1);
      t[p] ^= 1 << c.draw(7);
      what = "bit flipped at " + std::to_string(p);
      break;
    }
    case 1: {
      size_t p = pos(w.size() - 1), k = c.logRange(1, std::min<size_t>(40, w.size() - p));
      for (size_t i = 0; i < k; i++) t[p + i] = (char)c.draw(255);
      what = std::to_string(k) + " bytes overwritten at " + std::to_string(p);
      break;
    }
    case 2: {
      size_t p = pos(w.size() - 1);
      t.resize(p);
      what = "cut off after " + std::to_string(p);
      break;
    }
    case 3: {
      size_t p = pos(w.size() - 1), k = c.logRange(1, 40);
      std::string ins = c.flip() ? c.bytesN(k) : w.substr(p, k);  // foreign bytes or a repetition
      t.insert(p, ins);
      what = std::to_string(ins.size()) + " bytes inserted at " + std::to_string(p);
      break;
    }
    case 4: {
      size_t p = pos(w.size() - 1), k = c.logRange(1, std::min<size_t>(64, w.size() - p));
      t.erase(p, k);
      what = std::to_string(k) + " bytes removed at " + std::to_string(p);
      break;
    }
    case 5: {  // two stretches of equal length exchanged
      size_t k = c.logRange(1, 40), p = pos(w.size() - 1), q = pos(w.size() - 1);
      auto st = stretches(w, n, tagInt, ivInt);
      if (st.size() > 1 && c.chance(1, 3)) {  // from vector to vector
        size_t a = c.draw(st.size() - 2), b = a + 1 + c.draw(st.size() - 2 - a);
        p = 3, k = st[a].size();
        for (size_t i = 0; i < a; i++) p += st[i].size();
        if (a == 0) k = 16;
        q = p;
        for (size_t i = a; i < b; i++) q += st[i].size();
      }
      if (p > q) std::swap(p, q);
      if (p + k > q || q + k > w.size()) c.discard();
      std::swap_ranges(t.begin() + p, t.begin() + p + k, t.begin() + q);
      what = std::to_string(k) + " bytes exchanged at " + std::to_string(p) + " and " + std::to_string(q);
      break;
    }
    case 6: {  // beginning of one session, rest of another one under the same key
      std::string plain2 = c.chance(1, 3) ? plain : plainText(c, n, c.chance(1, 3));
      w2 = record(c, P, ivInt, tagInt, plain2);
      size_t p = pos(w.size() - 1);
      t = w.substr(0, p) + w2.substr(std::min(p, w2.size()));
      if (w.compare(0, p, w2, 0, p) == 0) c.discard();  // the other session as a whole
      what = "continued with another session from " + std::to_string(p);
      break;
    }
    default: {  // a whole stretch, tag included, left out
      if (tagInt <= 0 || n <= (size_t)tagInt) c.discard();
      size_t blocks = (n - 1) / tagInt, b = c.draw(blocks - 1);
      size_t p = H + (tagInt + 16) * b + (c.flip() ? 0 : tagInt);
      if (p + tagInt + 16 > w.size()) c.discard();
      t.erase(p, tagInt + 16);
      what = "stretch with its tag removed at " + std::to_string(p);
    }
  }
  if (t.compare(0, w.size(), w) == 0) c.discard();  // nothing changed, or only appended at the end
  bool only = t.size() == w.size();
  if (only) {
    auto u = uncovered(w.size(), n, tagInt, ivInt);
    for (size_t i = 0; i < w.size(); i++) only &= t[i] == w[i] || u[i];
  }
  c.note([&] { return "gcm tag interval " + std::to_string(tagInt) + " key change " + std::to_string(ivInt) + " " + std::to_string(n) + " bytes, wire " + std::to_string(w.size()) + ": " + what; });
  c.label("tamper:" + std::to_string(kind));
  Outcome o = receive(c, P, ivInt, t, n, stretches(w, n, tagInt, ivInt).size() == 1 ? &plain : nullptr, c.flip() ? c.logRange(1, n) : 0);
  if (only) {
    c.label("uncovered only");
    PBT_CHECK(c, o.error || o.got == plain, "changed settings give other data without an error");
    return;
  }
  if (!o.error && t.size() >= w.size()) {
    // every stretch between two vectors is authenticated on its own only
    auto rec = stretches(w, n, tagInt, ivInt), tt = stretches(t.substr(0, w.size()), n, tagInt, ivInt);
    if (w2.size() == w.size())
      for (auto& x : stretches(w2, n, tagInt, ivInt)) rec.push_back(x);
    bool whole = true;
    for (auto& x : tt) whole &= std::find(rec.begin(), rec.end(), x) != rec.end();
    if (whole && c.known("whole-stretch-between-key-changes")) return;
  }
  PBT_CHECK(c, o.error, "no error although the stream was altered: " << what << "; " << o.what << ", delivered bytes " << (o.got == plain ? "equal" : "differ"));
  c.nontrivial();
}

void wrongKey(Case& c) {
  std::string key = genKey(c), other = key;
  int tagInt = genTagInterval(c);
  int64_t ivInt = genIvInterval(c, tagInt);
  size_t n = c.logRange(1, tagInt > 0 ? std::min<int64_t>(3000, (int64_t)tagInt * 50) : 3000);
  std::string plain = plainText(c, n, c.chance(1, 4));
  EncryptionType ta = ENC_AES128_GCM, tb = ENC_AES128_GCM;
  int how = c.weighted({3, 3, 1});
  if (how == 0) other[c.draw(15)] ^= 1 << c.draw(7);
  else if (how == 1) other = genKey(c);
  else {
    if (c.flip()) ta = ENC_AES128_CTR;
    else
      tb = ENC_AES128_CTR;
  }
  if (other == key && ta == tb) c.discard();
  c.note([&] { return std::string("written ") + tn(ta) + " read " + tn(tb) + " tag interval " + std::to_string(tagInt) + ", " + std::to_string(n) + " bytes"; });
  std::string w = record(c, params(ta, key), ivInt, tagInt, plain);
  Outcome o = receive(c, params(tb, other), ivInt, w, n, nullptr, 0);
  PBT_CHECK(c, o.error, "stream accepted under another key or cipher: " << o.what);
  PBT_EQ(c, o.tags, (int64_t)0, "tags accepted under another key");
  // and the right one is accepted
  Outcome g = receive(c, params(ta, key), ivInt, w, n, &plain, 0);
  // the write direction of the receiving socket was never used, so only reading is judged
  PBT_CHECK(c, !g.error && g.got == plain, "untouched stream refused: " << g.what);
  c.nontrivial();
}

// A receiving socket that may meet peers without encryption.
void plainPeer(Case& c) {
  std::string key = genKey(c);
  auto type = c.flip() ? ENC_AES128_GCM : ENC_AES128_CTR;
  int tagInt = genTagInterval(c);
  Side B(params(type, key), 0, tagInt, 20000);
  B.s->enableUnencryptedPeerSupport();
  int rounds = c.range(1, 3);
  for (int r = 0; r < rounds; r++) {
    bool enc = c.chance(1, 3);
    int p[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) c.discard();
    Side A(params(enc ? type : ENC_NONE, key), 0, tagInt, 20000);
    A.attach(p[0]);
    B.attach(p[1]);
    std::string sent, got;
    int k = c.range(1, 5);
    for (int i = 0; i < k; i++) {
      size_t n = c.logRange(1, tagInt > 0 ? std::min(3000, tagInt * 20) : 3000);
      std::string d = c.blob(n);
      if (sent.empty() && d[0] == Protocol::ENCRYPTION_CMD && !enc) d[0] = 'L';
      std::string b = d;
      PBT_EQ(c, A.s->write(&b[0], n), (int)n, "write");
      sent += d;
      while (got.size() < sent.size() && !c.chance(1, 3)) {
        size_t m = c.logRange(1, sent.size() - got.size());
        bool full = c.flip();
        std::string buf(m, 'x');
        int x = B.s->read(&buf[0], m, full);
        c.note([&] { return std::string(enc ? "encrypted" : "plain") + " peer, read " + std::to_string(m) + " -> " + std::to_string(x); });
        PBT_CHECK(c, x >= 1 && x <= (int)m && (!full || x == (int)m), "read of " << m << " bytes returned " << x << ", " << errorCodeToStr(B.s->getReadErrCode()) << ", session " << r << (enc ? " encrypted" : " plain"));
        PBT_EQ(c, errorCodeToStr(B.s->getReadErrCode()), std::string("OK"), "status after a read of " << m);
        PBT_CHECK(c, sent.compare(got.size(), x, buf, 0, x) == 0, "other bytes read, session " << r);
        got.append(buf, 0, x);
      }
    }
    if (!got.empty()) {
      PBT_EQ(c, (int)B.s->getEncryptionType(), (int)(enc ? type : ENC_NONE), "encryption in use, session " << r);
      if (!enc) {
        std::string back = c.blob(c.logRange(1, 100)), b = back, in(back.size(), 'x');
        PBT_EQ(c, B.s->write(&b[0], b.size()), (int)b.size(), "reply");
        PBT_EQ(c, A.s->read(&in[0], in.size()), (int)in.size(), "reply read");
        PBT_CHECK(c, in == back, "the reply to a plain peer is not plain");
      }
    }
    A.s->closeNoCheck();
    B.s->closeNoCheck();
    if (!enc && !got.empty()) c.nontrivial();
  }
}

// Whatever bytes arrive, the reading socket neither crashes nor hangs.
void garbage(Case& c) {
  std::string key = genKey(c);
  auto type = c.flip() ? ENC_AES128_GCM : ENC_AES128_CTR;
  int64_t ivInt = genIvInterval(c, 16);
  std::string w;
  if (!c.chance(1, 4)) {
    char b[64];
    int64_t off = 0;
    b[off++] = Protocol::ENCRYPTION_CMD;
    int32_t ti = c.chance(1, 2) ? (int32_t)c.i64() : c.range(-1, 50);
    std::string iv = c.bytesN(c.chance(1, 5) ? c.range(0, 30) : 16);
    iv.resize(std::min<size_t>(iv.size(), 30));
    Protocol::encodeEncryptionSettings(b, off, sizeof b, c.chance(1, 6) ? (EncryptionType)c.draw(127) : type, iv, ti);
    w.assign(b, off);
    c.note([&] { return "settings with tag interval " + std::to_string(ti); });
  }
  size_t n = c.logRange(0, 3000);
  w += c.blob(n);
  bool support = c.flip();
  int p[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) c.discard();
  Side B(params(type, key), ivInt, 16, 20000);
  if (support) B.s->enableUnencryptedPeerSupport();
  B.attach(p[0]);
  Feeder f(p[1], w);
  int64_t total = 0;
  bool failed = false;  // already reported to the reader
  for (int i = 0; i < 200; i++) {
    size_t m = c.logRange(1, 4000);
    std::string buf(m, 'x');
    int x = B.s->read(&buf[0], m, c.flip());
    PBT_CHECK(c, x <= (int)m, "more read than asked for");
    failed = x < 0;
    if (x <= 0) break;
    total += x;
  }
  PBT_CHECK(c, total <= (int64_t)w.size(), "more bytes delivered than arrived");
  ErrorCode e = B.s->closeConnection();
  if (type == ENC_AES128_GCM && B.s->getEncryptionType() == ENC_AES128_GCM && w.size() && (w[0] == Protocol::ENCRYPTION_CMD || !support)) PBT_CHECK(c, failed || e != OK, "garbage accepted as an authenticated stream");
  if (total) c.nontrivial();
}

// The ciphers themselves, against OpenSSL used in one go.
void aes(Case& c) {
  auto type = c.flip() ? ENC_AES128_GCM : ENC_AES128_CTR;
  std::string key = genKey(c);
  auto P = params(type, key);
  bool gcm = type == ENC_AES128_GCM;
  if (gcm) {  // find out once how much of the vector is used
    AESEncryptor t;
    std::string iv, out(20, 0), tag;
    PBT_CHECK(c, t.start(P, iv) && t.encrypt(out.data(), 20, &out[0]), "encryptor does not start");
    gcmIvLen = refCrypt(type, key, iv, std::string(20, 0), &tag) == out ? gcmIvLen : 28 - gcmIvLen;
  }
  AESEncryptor e;
  AESDecryptor d;
  int rounds = c.range(1, 2);
  for (int r = 0; r < rounds; r++) {
    std::string iv;
    PBT_CHECK(c, e.start(P, iv) && iv.size() == 16, "encryptor does not start");
    PBT_CHECK(c, d.start(P, iv), "decryptor does not start");
    int64_t e0 = e.getNumProcessed(), d0 = d.getNumProcessed();
    std::string plain, cipher;
    int k = c.range(0, 8);
    for (int i = 0; i < k; i++) {
      std::string s = c.blob(c.logRange(1, 2000)), out(s.size(), 0), back;
      bool inPlace = c.flip();
      if (inPlace) {
        out = s;
        PBT_CHECK(c, e.encrypt(out.data(), out.size(), &out[0]), "encrypt");
      } else
        PBT_CHECK(c, e.encrypt(s.data(), s.size(), &out[0]), "encrypt");
      plain += s;
      cipher += out;
      // decrypted in pieces of another size
      size_t o = 0;
      while (o < out.size()) {
        size_t n = c.flip() ? out.size() - o : c.logRange(1, out.size() - o);
        std::string b = out.substr(o, n), q(n, 0);
        PBT_CHECK(c, d.decrypt(b.data(), n, inPlace ? &b[0] : &q[0]), "decrypt");
        back += inPlace ? b : q;
        o += n;
      }
      PBT_CHECK(c, back == s, "decryption does not give the text back");
      PBT_EQ(c, e.getNumProcessed() - e0, (int64_t)plain.size(), "");
      PBT_EQ(c, d.getNumProcessed() - d0, (int64_t)plain.size(), "");
      std::string tag;
      PBT_CHECK(c, refCrypt(type, key, iv, plain, gcm ? &tag : nullptr) == cipher, "ciphertext is not AES-128-" << (gcm ? "GCM" : "CTR"));
      if (gcm && c.flip()) {
        PBT_CHECK(c, e.computeCurrentTag() == tag, "intermediate tag is not the tag of the data so far");
        if (c.flip()) PBT_CHECK(c, d.verifyTag(tag), "intermediate tag refused");
        std::string bad = tag;
        bad[c.draw(15)] ^= 1 << c.draw(7);
        if (c.flip()) PBT_CHECK(c, !d.verifyTag(bad), "wrong intermediate tag accepted");
        if (c.chance(1, 4)) PBT_CHECK(c, !d.verifyTag(tag.substr(0, c.draw(15))), "short tag accepted");
      }
    }
    std::string tag, ref;
    PBT_CHECK(c, e.finish(tag), "finish");
    refCrypt(type, key, iv, plain, gcm ? &ref : nullptr);
    PBT_CHECK(c, tag == ref, "final tag");
    bool bad = gcm && c.chance(1, 3);
    if (bad) tag[c.draw(15)] ^= 1 << c.draw(7);
    PBT_EQ(c, d.finish(tag), !bad, "final verification");
    if (!plain.empty()) c.nontrivial();
  }
  // keys and vectors of another length are refused
  if (c.chance(1, 4)) {
    std::string k2 = c.blob(c.pick({0, 1, 8, 15, 17, 24, 32}));
    std::string iv;
    AESEncryptor e2;
    AESDecryptor d2;
    if (!k2.empty()) {
      EncryptionParams p2(type, k2);
      PBT_CHECK(c, !e2.start(p2, iv), "key of " << k2.size() << " bytes accepted");
      PBT_CHECK(c, !d2.start(p2, c.bytesN(16)), "key of " << k2.size() << " bytes accepted");
    }
    AESDecryptor d3;
    PBT_CHECK(c, !d3.start(P, c.bytesN(c.pick({0, 1, 12, 15, 17, 32}))), "vector of wrong length accepted");
  }
}
}  // namespace

int main(int argc, char** argv) {
  return pbt::main(argc, argv, "C19", {
      {"session", session, 5000, 60000, 60, false, "encryption on", 0, true},
      {"tamper", tamper, 12000, 150000, 60, false, "the authenticated part of the stream was altered", 0, true},
      {"wrong_key", wrongKey, 4000, 40000, 60, false, "all", 0, true},
      {"plain_peer", plainPeer, 4000, 40000, 60, false, "an unencrypted peer was read from", 0, true},
      {"garbage", garbage, 6000, 80000, 60, false, "some bytes were delivered", 0, true},
      {"aes", aes, 10000, 120000, 60, false, "some bytes encrypted", 0, false},
  });
}
