// variant: asan
// libs: core
// C31: the high level interface (Wdt::wdtSend, wdtReceiveStart, wdtReceiveFinish):
// histories of calls, several at a time, against a model of who holds which place.
#include <wdt/Wdt.h>
#include "common_e2e.h"
using namespace facebook::wdt;
using pbt::Case;
using e2e::now;
struct Flag : IAbortChecker {
  std::atomic<bool> on{false};
  bool shouldAbort() const override { return on; }
};
// A socket that listens and never answers.
struct Hole {
  int fd{-1}, port{0};
  explicit Hole(bool listening = true) {
    fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(listening ? INADDR_LOOPBACK : INADDR_ANY);
    if (fd < 0 || bind(fd, (sockaddr*)&a, sizeof a) != 0) throw std::runtime_error("harness: bind");
    if (listening && listen(fd, 64) != 0) throw std::runtime_error("harness: listen");
    socklen_t n = sizeof a;
    getsockname(fd, (sockaddr*)&a, &n);
    port = ntohs(a.sin_port);
  }
  ~Hole() { if (fd >= 0) close(fd); }
};
struct Send {
  std::string ns, key, tid;
  std::shared_ptr<Flag> abort = std::make_shared<Flag>();
  std::thread th;
  std::atomic<bool> done{false};
  ErrorCode code{OK};
  double end{0};
};
struct Recv {
  WdtTransferRequest req{0, 0, ""};
  std::shared_ptr<Flag> abort;
  std::string dir;
  bool used{false};
};
static void api(Case& c) {
  static std::atomic<int> serial{0};
  std::string app = "c31-" + std::to_string(getpid()) + "-" + std::to_string(serial++), base = c.scratch();
  Wdt& wdt = Wdt::initializeWdt(app);
  struct Rel { std::string a; bool on{true}; ~Rel() { if (on) Wdt::releaseWdt(a); } } rel{app};
  WdtOptions& o = wdt.getWdtOptions();
  o.ipv4 = true;
  o.ipv6 = false;
  o.static_ports = false;
  o.enable_perf_stat_collection = false;
  o.skip_fadvise = true;
  o.max_retries = 2;
  o.sleep_millis = 5;
  o.connect_timeout_millis = 2000;
  o.read_timeout_millis = 60000;
  o.write_timeout_millis = 60000;
  o.accept_timeout_millis = 60000;
  o.max_accept_retries = 1;
  o.abort_check_interval_millis = 20;
  o.encryption_type = e2e::genEnc(c);
  o.namespace_sender_limit = c.chance(2, 5) ? (int)c.range(1, 3) : 0;
  o.namespace_receiver_limit = c.chance(2, 5) ? (int)c.range(1, 3) : 0;
  // the global limits are read when the controller is made
  auto* k = wdt.getWdtResourceController();
  int64_t gs = c.chance(1, 4) ? c.range(1, 4) : 0, gr = c.chance(1, 4) ? c.range(1, 4) : 0;
  k->updateMaxSendersLimit(gs);
  k->updateMaxReceiversLimit(gr);
  c.note([&] { std::ostringstream s; s << "limits: " << gs << "/" << gr << " in all, " << o.namespace_sender_limit << "/" << o.namespace_receiver_limit << " per namespace; encryption " << o.encryption_type; return s.str(); });
  e2e::Tree tree;
  size_t nf = c.range(0, 4);
  for (size_t i = 0; i < nf; i++) tree["d" + std::to_string(i % 2) + "/f" + std::to_string(i)] = c.blob(c.logRange(0, 200000));
  std::string src = base + "/src";
  e2e::writeTree(src, tree);
  Hole hole, closed(false);
  std::vector<std::string> nss = {"", "n1"}, keys = {"h1", "h2"}, tids = {"t1", "t2", "t3"}, ids = {"default", "r2"};
  using Key = std::pair<std::string, std::string>;
  std::map<Key, Send*> running;
  std::map<Key, Recv> receivers;
  std::vector<std::unique_ptr<Send>> sends;
  struct Fin { std::vector<std::unique_ptr<Send>>& v; ~Fin() { for (auto& s : v) { s->abort->on = true; if (s->th.joinable()) s->th.join(); } } } fin{sends};
  auto inNs = [](auto& m, const std::string& n) { int64_t r = 0; for (auto& e : m) r += e.first.first == n; return r; };
  auto ended = [&](Send* s, double t0, const char* why) {
    double lim = t0 + 8;
    while (!s->done && now() < lim) e2e::msleep(1);
    PBT_CHECK(c, s->done, "the call that sends " << s->tid << " to " << s->ns << "/" << s->key << " did not return within 8 s after " << why);
    s->th.join();
    PBT_CHECK(c, s->code != OK, "the call that sends " << s->tid << " to a receiver which never answers returns OK after " << why);
  };
  size_t ops = c.range(4, 20), replaced = 0, refused = 0, good = 0, failedInit = 0;
  for (size_t i = 0; i < ops; i++) {
    std::string n = c.pick(nss);
    switch (c.weighted({12, 2, 6, 3, 1})) {
      case 0: {
        Key key{n, c.pick(keys)};
        // 0 a receiver that never answers, 1 nobody there, 2 a real receiver,
        // 3 no directory, 4 no ports, 5 a version nobody speaks, 6 an invalid request
        size_t kind = c.weighted({6, 1, 8, 1, 1, 1, 1});
        bool term = c.flip();
        Recv* r = nullptr;
        if (kind == 2) {
          std::vector<Recv*> v;
          for (auto& e : receivers) if (!e.second.used) v.push_back(&e.second);
          if (v.empty()) kind = 0;
          else r = c.pick(v);
        }
        WdtTransferRequest q(0, 0, src);
        q.ports = {(int32_t)hole.port};
        q.transferId = c.pick(tids);
        if (r) {
          q = WdtTransferRequest(r->req.genWdtUrlWithSecret());
          q.directory = src;
        }
        q.wdtNamespace = n;
        q.hostName = "127.0.0.1";
        q.destIdentifier = key.second;
        if (kind == 1) q.ports = {(int32_t)closed.port, (int32_t)closed.port};
        if (kind == 3) q.directory = "";
        if (kind == 4) q.ports.clear();
        if (kind == 5) q.protocolVersion = c.pick<int64_t>({3, 9, 0, -1, INT64_MIN});
        if (kind == 6) q.errorCode = URI_PARSE_ERROR;
        auto it = running.find(key);
        Send* old = it == running.end() ? nullptr : it->second;
        bool full = (gs > 0 && (int64_t)running.size() >= gs) || (o.namespace_sender_limit > 0 && inNs(running, n) >= o.namespace_sender_limit);
        static const char* kn[] = {"a mute receiver", "nobody", "a receiver", "a receiver, without directory", "a receiver, without ports", "a receiver, by a version nobody speaks", "a receiver, invalid request"};
        std::ostringstream what;
        what << "send " << q.transferId << " as " << n << "/" << key.second << " to " << kn[kind] << (term ? ", terminating" : "") << (old ? ", one is running" : "") << (full ? ", no place left" : "");
        c.note([&] { return what.str(); });
        sends.emplace_back(new Send);
        Send* s = sends.back().get();
        s->ns = n;
        s->key = key.second;
        s->tid = q.transferId;
        double t0 = now();
        s->th = std::thread([&wdt, s, q, term] {
          s->code = wdt.wdtSend(q, s->abort, term);
          s->end = now();
          s->done = true;
        });
        // it either returns or takes the place
        SenderPtr cur;
        bool holds = false;
        while (!s->done && now() < t0 + 30) {
          cur = k->getSender(n, key.second);
          if (kind == 0 && cur && cur->getTransferId() == s->tid && (!old || old->tid != s->tid)) { holds = true; break; }
          e2e::msleep(1);
        }
        cur.reset();
        PBT_CHECK(c, holds || s->done, what.str() << ": neither returned nor registered after 30 s");
        if (kind == 6) {
          PBT_CHECK(c, s->done && s->code == URI_PARSE_ERROR, what.str() << ": returned " << errorCodeToStr(s->code));
          break;
        }
        if (s->done && !holds && old && s->code == ALREADY_EXISTS) {
          PBT_CHECK(c, !term || old->tid == s->tid, what.str() << ": refused although the running transfer is another one (" << old->tid << ")");
          refused++;
          break;
        }
        if (s->done && full && s->code == QUOTA_EXCEEDED) {
          refused++;
          break;
        }
        if (old) {
          PBT_CHECK(c, term && old->tid != s->tid, what.str() << ": was not refused although " << old->tid << " runs, but " << (holds ? "took its place" : errorCodeToStr(s->code)));
          ended(old, now(), "another transfer took its place");
          running.erase(it);
          replaced++;
          c.label("replaced");
        } else {
          PBT_CHECK(c, !full, what.str() << ": was not refused but " << (holds ? "runs" : errorCodeToStr(s->code)));
        }
        if (kind == 0) {
          PBT_CHECK(c, !s->done, what.str() << ": returned " << errorCodeToStr(s->code));
          running[key] = s;
        } else {
          PBT_CHECK(c, s->done, what.str() << ": did not return");
          PBT_EQ(c, s->code == OK, kind == 2, what.str() << ": returned " << errorCodeToStr(s->code));
          if (kind >= 3) failedInit++;
          if (r) r->used = true, good++;
        }
        break;
      }
      case 1: {
        if (running.empty()) break;
        auto it = std::next(running.begin(), c.draw(running.size() - 1));
        c.note([&] { return "abort " + it->first.first + "/" + it->first.second; });
        it->second->abort->on = true;
        ended(it->second, now(), "an abort");
        running.erase(it);
        break;
      }
      case 2: {
        Key key{n, c.pick(ids)};
        // 0 good, 1 no directory, 2 a port of another process, 3 the same with others, 4 invalid
        size_t kind = c.weighted({8, 1, 1, 1, 1});
        Recv r;
        r.dir = base + "/dst" + std::to_string(i);
        r.abort = std::make_shared<Flag>();
        WdtTransferRequest q(0, (int)c.range(1, 3), r.dir);
        if (kind == 1) q.directory = "";
        if (kind == 2) q.ports = {(int32_t)closed.port};
        if (kind == 3) q.ports.push_back(hole.port);
        if (kind == 4) q.errorCode = URI_PARSE_ERROR;
        q.hostName = "127.0.0.1";
        bool dup = receivers.count(key), full = (gr > 0 && (int64_t)receivers.size() >= gr) || (o.namespace_receiver_limit > 0 && inNs(receivers, n) >= o.namespace_receiver_limit);
        std::ostringstream what;
        static const char* kn[] = {"", ", without directory", ", on a taken port", ", one port taken", ", invalid request"};
        what << "receive as " << n << "/" << key.second << kn[kind] << (dup ? ", one exists" : "") << (full ? ", no place left" : "");
        c.note([&] { return what.str(); });
        o.static_ports = kind == 2 || kind == 3;
        ErrorCode e = wdt.wdtReceiveStart(n, q, key.second, r.abort);
        o.static_ports = false;
        if (kind == 4) {
          PBT_EQ(c, errorCodeToStr(e), errorCodeToStr(URI_PARSE_ERROR), what.str());
        } else if (dup || full) {
          PBT_CHECK(c, (dup && e == ALREADY_EXISTS) || (full && e == QUOTA_EXCEEDED), what.str() << ": returned " << errorCodeToStr(e));
          refused++;
        } else if (kind != 0) {
          PBT_CHECK(c, e != OK, what.str() << ": returned OK");
          failedInit++;
        } else {
          PBT_EQ(c, errorCodeToStr(e), errorCodeToStr(OK), what.str());
          PBT_CHECK(c, !q.ports.empty() && !q.transferId.empty(), what.str() << ": ports or id missing in the request");
          r.req = q;
          receivers.emplace(key, r);
        }
        PBT_EQ(c, errorCodeToStr(q.errorCode), errorCodeToStr(e), what.str() << ": error in the request and returned error");
        break;
      }
      case 3: {
        Key key{n, c.pick(ids)};
        if (!receivers.empty() && c.chance(3, 4)) key = std::next(receivers.begin(), c.draw(receivers.size() - 1))->first;
        auto it = receivers.find(key);
        c.note([&] { return "finish " + key.first + "/" + key.second + (it == receivers.end() ? ", unknown" : it->second.used ? ", after a transfer" : ", aborted"); });
        if (it != receivers.end() && !it->second.used) it->second.abort->on = true;
        double t0 = now();
        ErrorCode e = wdt.wdtReceiveFinish(key.first, key.second);
        PBT_CHECK(c, now() - t0 < 8, "wdtReceiveFinish took " << now() - t0 << " s");
        if (it == receivers.end()) {
          PBT_EQ(c, errorCodeToStr(e), errorCodeToStr(NOT_FOUND), "finish of an unknown receiver");
        } else {
          PBT_EQ(c, e == OK, it->second.used, "finish of a receiver " << (it->second.used ? "whose sender reported success" : "that was aborted") << ": " << errorCodeToStr(e));
          if (it->second.used) {
            std::string d = e2e::diffTrees(tree, e2e::readTree(it->second.dir));
            PBT_CHECK(c, d.empty(), "after a transfer both sides reported as successful: " << d);
          }
          receivers.erase(it);
        }
        break;
      }
      case 4: {
        PBT_CHECK(c, &Wdt::getWdt(app) == &wdt, "getWdt gives another object");
        PBT_CHECK(c, &Wdt::initializeWdt(app) == &wdt, "a second initializeWdt gives another object");
        break;
      }
    }
    int32_t a, s, r;
    k->getCounts(a, s, r);
    PBT_EQ(c, (size_t)s, running.size(), "places taken by senders");
    PBT_EQ(c, (size_t)r, receivers.size(), "places taken by receivers");
    for (auto& e : running) {
      PBT_CHECK(c, !e.second->done, "the call that sends " << e.second->tid << " to " << e.first.first << "/" << e.first.second << " returned " << errorCodeToStr(e.second->code) << " by itself");
      auto p = k->getSender(e.first.first, e.first.second);
      PBT_CHECK(c, p && p->getTransferId() == e.second->tid, "the running transfer of " << e.first.first << "/" << e.first.second << " is not the registered one");
    }
    for (auto& e : receivers) {
      auto p = k->getReceiver(e.first.first, e.first.second);
      PBT_CHECK(c, p && p->getTransferId() == e.second.req.transferId, "the receiver of " << e.first.first << "/" << e.first.second << " is not the registered one");
    }
  }
  for (auto& e : running) {
    e.second->abort->on = true;
    ended(e.second, now(), "an abort");
  }
  int32_t a, s, r;
  k->getCounts(a, s, r);
  PBT_EQ(c, (int64_t)s, (int64_t)0, "places taken by senders when all calls have returned");
  double t0 = now();
  rel.on = false;
  Wdt::releaseWdt(app);
  PBT_CHECK(c, now() - t0 < 10, "releaseWdt with " << receivers.size() << " waiting receivers took " << now() - t0 << " s");
  if (replaced) c.label("replaced");
  if (failedInit) c.label("failed init");
  if (refused && (good || replaced)) c.nontrivial();
}
// Several calls for the same place at once: one stays, and it is the registered one.
static void races(Case& c) {
  static std::atomic<int> serial{0};
  std::string app = "c31r-" + std::to_string(getpid()) + "-" + std::to_string(serial++), src = c.scratch() + "/src";
  e2e::writeTree(src, {{"f", "content"}});
  Wdt& wdt = Wdt::initializeWdt(app);
  struct Rel { std::string a; ~Rel() { Wdt::releaseWdt(a); } } rel{app};
  WdtOptions& o = wdt.getWdtOptions();
  o.ipv4 = true;
  o.ipv6 = false;
  o.read_timeout_millis = o.write_timeout_millis = 60000;
  o.abort_check_interval_millis = (int)c.range(1, 20);
  o.encryption_type = "none";
  o.enable_perf_stat_collection = false;
  auto* k = wdt.getWdtResourceController();
  Hole hole;
  size_t n = c.range(2, 8), spread = c.range(0, 30);
  std::vector<std::unique_ptr<Send>> sends;
  struct Fin { std::vector<std::unique_ptr<Send>>& v; ~Fin() { for (auto& s : v) { s->abort->on = true; if (s->th.joinable()) s->th.join(); } } } fin{sends};
  bool all = c.flip();
  size_t waves = c.range(1, 4);
  c.note([&] { return std::to_string(waves) + " waves of " + std::to_string(n) + " calls within " + std::to_string(spread) + " ms" + (all ? ", all terminating" : ""); });
  std::vector<std::vector<std::pair<size_t, bool>>> plan(waves);
  for (auto& w : plan)
    for (size_t i = 0; i < n; i++) { size_t d = c.range(0, spread); w.push_back({d, all || c.flip()}); }
  for (size_t w = 0; w < waves; w++) {
    size_t first = sends.size();
    for (size_t i = 0; i < n; i++) {
      sends.emplace_back(new Send);
      Send* s = sends.back().get();
      s->tid = "t" + std::to_string(first + i);
      WdtTransferRequest q(0, 0, src);
      q.ports = {(int32_t)hole.port};
      q.transferId = s->tid;
      q.hostName = "127.0.0.1";
      bool term = plan[w][i].second;
      size_t delay = plan[w][i].first;
      s->th = std::thread([&wdt, s, q, term, delay] {
        e2e::msleep(delay);
        s->code = wdt.wdtSend(q, s->abort, term);
        s->done = true;
      });
    }
    auto left = [&] { std::vector<Send*> v; for (auto& s : sends) if (!s->done) v.push_back(s.get()); return v; };
    double t0 = now();
    while (left().size() > 1 && now() < t0 + 15) e2e::msleep(1);
    e2e::msleep(2);
    auto v = left();
    PBT_EQ(c, v.size(), (size_t)1, "calls for the same place still running 15 s after the last one began (wave " << w << ")");
    auto p = k->getSender("", "127.0.0.1");
    int32_t a, s, r;
    k->getCounts(a, s, r);
    PBT_CHECK(c, p && p->getTransferId() == v[0]->tid, v[0]->tid << " is running, registered is " << (p ? p->getTransferId() : "none"));
    PBT_EQ(c, (int64_t)s, (int64_t)1, "places taken with one call running");
    if (v[0]->tid != "t" + std::to_string(first)) c.nontrivial();
  }
  for (auto& s : sends) s->abort->on = true;
  for (auto& s : sends) {
    s->th.join();
    PBT_CHECK(c, s->code != OK, "a transfer to a receiver which never answers returns OK");
  }
  int32_t a, s, r;
  k->getCounts(a, s, r);
  PBT_EQ(c, (int64_t)s, (int64_t)0, "places taken when all calls have returned");
}
int main(int argc, char** argv) {
  pbt::Sub h{"calls", api, 2500, 40000};
  h.rule = "at least one call was refused and one transfer succeeded or replaced another";
  h.concurrent = true;
  h.caseTimeout = 150;
  pbt::Sub r{"races", races, 600, 12000};
  r.rule = "the call which stayed is not the first one of the wave";
  r.concurrent = true;
  r.caseTimeout = 150;
  return pbt::main(argc, argv, "C31", {h, r});
}
