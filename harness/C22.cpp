// variant: asan
// libs: core
// C22: sender and receiver quotas, against a reference model.
#include <wdt/WdtResourceController.h>
#include <algorithm>
#include <atomic>
#include <set>
#include <thread>
#include "pbt.h"
using namespace facebook::wdt;
using pbt::Case;
struct Ns {
  std::map<std::string, std::shared_ptr<void>> obj[2];  // 0 senders, 1 receivers
  std::set<std::string> stale[2];
  int64_t lim[2];
};
struct Model {
  std::map<std::string, Ns> ns;
  int64_t lim[2];
  int64_t live[2]{0, 0};
  bool strict{false};
};
static WdtTransferRequest req(const std::string& id, const std::string& dir) {
  WdtTransferRequest r(0, 1, dir);
  r.hostName = "localhost";
  r.transferId = id;
  r.ports = {1};  // nobody listens there
  r.disableDirectoryTraversal = true;
  return r;
}
static ErrorCode create(WdtResourceController& k, int t, const std::string& ns, const std::string& id, const WdtTransferRequest& r, std::shared_ptr<void>& out) {
  if (t == 0) {
    SenderPtr p = std::make_shared<Sender>(r);
    ErrorCode e = k.createSender(ns, id, r, p);
    out = p;
    return e;
  }
  ReceiverPtr p = std::make_shared<Receiver>(r);
  ErrorCode e = k.createReceiver(ns, id, r, p);
  out = p;
  return e;
}
static std::shared_ptr<void> lookup(WdtResourceController& k, int t, const std::string& ns, const std::string& id) {
  if (t == 0) return k.getSender(ns, id);
  return k.getReceiver(ns, id);
}
static std::vector<std::shared_ptr<void>> all(WdtResourceController& k, int t, const std::string& ns) {
  std::vector<std::shared_ptr<void>> v;
  if (t == 0) for (auto& p : k.getAllSenders(ns)) v.push_back(p);
  else for (auto& p : k.getAllReceivers(ns)) v.push_back(p);
  return v;
}
// Runs the transfer of an object to its end so that it becomes stale.
static void finishOne(Case& c, int t, const std::shared_ptr<void>& o) {
  if (t == 0) {
    auto s = std::static_pointer_cast<Sender>(o);
    s->transferAsync();
    s->abort(ABORTED_BY_APPLICATION);
    s->finish();
    PBT_CHECK(c, s->isStale(), "finished sender is not stale");
  } else {
    auto r = std::static_pointer_cast<Receiver>(o);
    r->init();
    r->transferAsync();
    r->abort(ABORTED_BY_APPLICATION);
    r->finish();
    PBT_CHECK(c, r->isStale(), "finished receiver is not stale");
  }
}
static const char* tn(int t) { return t ? "receiver" : "sender"; }

static void history(Case& c, bool withStale) {
  WdtOptions o;
  o.global_sender_limit = (int)c.range(0, 6);
  o.global_receiver_limit = (int)c.range(0, 6);
  o.namespace_sender_limit = (int)c.range(0, 3);
  o.namespace_receiver_limit = (int)c.range(0, 3);
  o.max_retries = 1;
  o.sleep_millis = 1;
  o.ipv6 = false;
  o.ipv4 = true;
  o.static_ports = false;
  std::string dir = withStale ? c.scratch() : "/nonexistent";
  WdtResourceController k(o);
  Model m;
  m.lim[0] = o.global_sender_limit;
  m.lim[1] = o.global_receiver_limit;
  c.note([&] { std::ostringstream s; s << "limits: global " << m.lim[0] << "/" << m.lim[1] << " namespace " << o.namespace_sender_limit << "/" << o.namespace_receiver_limit; return s.str(); });
  std::vector<std::string> names = {"", "a", "b", "Global"}, ids = {"1", "2", "3", "", "x"};
  auto newNs = [&](const std::string& n) -> Ns& {
    Ns& x = m.ns[n];
    x.lim[0] = o.namespace_sender_limit;
    x.lim[1] = o.namespace_receiver_limit;
    return x;
  };
  size_t ops = c.range(2, 50);
  size_t denied = 0, granted = 0, released = 0;
  for (size_t i = 0; i < ops; i++) {
    int t = (int)c.draw(1);
    std::string n = c.pick(names), id = c.pick(ids);
    size_t op = c.weighted({20, 6, 2, 2, 2, 2, 2, withStale ? 5u : 0u, 2, 1, 1});
    auto it = m.ns.find(n);
    bool known = it != m.ns.end();
    switch (op) {
      case 0: {
        c.note([&] { return std::string("create ") + tn(t) + " " + n + "/" + id; });
        std::shared_ptr<void> p;
        ErrorCode e = create(k, t, n, id, req("t" + id, dir), p);
        if (!known && m.strict) {
          PBT_EQ(c, errorCodeToStr(e), errorCodeToStr(NOT_FOUND), "create in an unregistered namespace");
          PBT_CHECK(c, !p, "object returned with the error");
          denied++;
          break;
        }
        Ns& x = known ? it->second : newNs(n);
        bool dup = x.obj[t].count(id), quota = (m.lim[t] > 0 && m.live[t] >= m.lim[t]) || (x.lim[t] > 0 && (int64_t)x.obj[t].size() >= x.lim[t]);
        if (!dup && !quota) {
          PBT_EQ(c, errorCodeToStr(e), errorCodeToStr(OK), "create " << tn(t) << " " << n << "/" << id << " with " << x.obj[t].size() << " in the namespace (limit " << x.lim[t] << ") and " << m.live[t] << " in all (limit " << m.lim[t] << ")");
          PBT_CHECK(c, p != nullptr, "no object returned");
          for (auto& a : m.ns) for (auto& b : a.second.obj[t]) PBT_CHECK(c, b.second != p, "an existing object returned as a new one");
          x.obj[t][id] = p;
          m.live[t]++;
          granted++;
        } else {
          PBT_CHECK(c, (dup && e == ALREADY_EXISTS) || (quota && e == QUOTA_EXCEEDED), "create " << tn(t) << " " << n << "/" << id << " gives " << errorCodeToStr(e) << "; exists " << dup << ", over quota " << quota << ": " << x.obj[t].size()
                                                                                                  << " in the namespace (limit " << x.lim[t] << ") and " << m.live[t] << " in all (limit " << m.lim[t] << ")");
          PBT_CHECK(c, e == ALREADY_EXISTS ? p == x.obj[t][id] : !p, "object returned with " << errorCodeToStr(e) << " is not the existing one");
          denied++;
        }
        break;
      }
      case 1: {
        c.note([&] { return std::string("release ") + tn(t) + " " + n + "/" + id; });
        ErrorCode e = t == 0 ? k.releaseSender(n, id) : k.releaseReceiver(n, id);
        bool there = known && it->second.obj[t].count(id);
        PBT_CHECK(c, (e == OK) == there, "release of " << (there ? "an existing" : "an unknown") << " " << tn(t) << " gives " << errorCodeToStr(e));
        if (there) {
          it->second.obj[t].erase(id);
          it->second.stale[t].erase(id);
          m.live[t]--;
          released++;
        }
        break;
      }
      case 2: {
        c.note([&] { return std::string("release all ") + tn(t) + " " + n; });
        ErrorCode e = t == 0 ? k.releaseAllSenders(n) : k.releaseAllReceivers(n);
        PBT_CHECK(c, (e == OK) == known, "release all in " << (known ? "a known" : "an unknown") << " namespace gives " << errorCodeToStr(e));
        if (known) {
          m.live[t] -= it->second.obj[t].size();
          it->second.obj[t].clear();
          it->second.stale[t].clear();
        }
        break;
      }
      case 3: {
        c.note([&] { return "register " + n; });
        PBT_EQ(c, errorCodeToStr(k.registerWdtNamespace(n)), errorCodeToStr(OK), "register");
        if (!known) newNs(n);
        break;
      }
      case 4: {
        c.note([&] { return "deregister " + n; });
        ErrorCode e = k.deRegisterWdtNamespace(n);
        PBT_CHECK(c, (e == OK) == known, "deregister of " << (known ? "a known" : "an unknown") << " namespace gives " << errorCodeToStr(e));
        if (known) {
          for (int j = 0; j < 2; j++) m.live[j] -= it->second.obj[j].size();
          m.ns.erase(it);
        }
        break;
      }
      case 5: {
        int64_t l = c.range(0, 4);
        c.note([&] { return std::string("limit ") + tn(t) + " of " + n + " to " + std::to_string(l); });
        if (t == 0) k.updateMaxSendersLimit(n, l);
        else k.updateMaxReceiversLimit(n, l);
        if (known) it->second.lim[t] = l;
        break;
      }
      case 6: {
        int64_t l = c.range(0, 7);
        c.note([&] { return std::string("global limit ") + tn(t) + " to " + std::to_string(l); });
        if (t == 0) k.updateMaxSendersLimit(l);
        else k.updateMaxReceiversLimit(l);
        m.lim[t] = l;
        break;
      }
      case 7: {
        // finish one existing object
        if (!known || it->second.obj[t].empty()) break;
        auto& e = *std::next(it->second.obj[t].begin(), c.draw(it->second.obj[t].size() - 1));
        if (it->second.stale[t].count(e.first)) break;
        c.note([&] { return std::string("run to the end ") + tn(t) + " " + n + "/" + e.first; });
        finishOne(c, t, e.second);
        it->second.stale[t].insert(e.first);
        break;
      }
      case 8: {
        c.note([&] { return std::string("release stale ") + tn(t) + " " + n; });
        std::vector<std::string> gone;
        ErrorCode e = t == 0 ? k.releaseStaleSenders(n, gone) : k.releaseStaleReceivers(n, gone);
        PBT_CHECK(c, (e == OK) == known, "release stale in " << (known ? "a known" : "an unknown") << " namespace gives " << errorCodeToStr(e));
        if (!known) break;
        std::set<std::string> g(gone.begin(), gone.end());
        PBT_CHECK(c, g == it->second.stale[t] && g.size() == gone.size(), gone.size() << " stale " << tn(t) << "s released, " << it->second.stale[t].size() << " were stale");
        for (auto& s : g) it->second.obj[t].erase(s), m.live[t]--;
        if (!g.empty()) c.label("stale released");
        it->second.stale[t].clear();
        break;
      }
      case 9: {
        m.strict = c.flip();
        c.note([&] { return std::string("require registration ") + (m.strict ? "yes" : "no"); });
        k.requireRegistration(m.strict);
        break;
      }
      case 10: {
        c.note([&] { return "shutdown"; });
        k.shutdown();
        m.ns.clear();
        m.live[0] = m.live[1] = 0;
        break;
      }
    }
    // the whole state is compared after every operation
    int32_t nn = -1, s = -1, r = -1;
    k.getCounts(nn, s, r);
    PBT_EQ(c, (int64_t)s, m.live[0], "number of senders");
    PBT_EQ(c, (int64_t)r, m.live[1], "number of receivers");
    PBT_EQ(c, (size_t)nn, m.ns.size(), "number of namespaces");
    for (auto& a : names) {
      auto j = m.ns.find(a);
      for (int q = 0; q < 2; q++) {
        size_t cnt = j == m.ns.end() ? 0 : j->second.obj[q].size();
        auto v = all(k, q, a);
        PBT_EQ(c, v.size(), cnt, tn(q) << "s listed in " << a);
        for (auto& b : ids) {
          std::shared_ptr<void> want = j != m.ns.end() && j->second.obj[q].count(b) ? j->second.obj[q][b] : nullptr;
          PBT_CHECK(c, lookup(k, q, a, b) == want, "lookup of " << tn(q) << " " << a << "/" << b << (want ? " does not give the object created under that id" : " gives an object that was released or never created"));
          if (want) PBT_CHECK(c, std::count(v.begin(), v.end(), want) == 1, tn(q) << " missing in the list");
        }
        bool quota = (m.lim[q] > 0 && m.live[q] >= m.lim[q]) || (j != m.ns.end() && j->second.lim[q] > 0 && (int64_t)cnt >= j->second.lim[q]);
        PBT_EQ(c, q == 0 ? k.hasSenderQuota(a) : k.hasReceiverQuota(a), !quota, tn(q) << " quota in " << a << ": " << cnt << " there, " << m.live[q] << " in all");
      }
      auto ids2 = k.getAllSendersIds(a);
      PBT_EQ(c, ids2.size(), j == m.ns.end() ? (size_t)0 : j->second.obj[0].size(), "ids in " << a);
      for (auto& b : ids2) PBT_CHECK(c, j->second.obj[0].count(b), "unknown id listed");
    }
  }
  if (denied && granted >= 2 && released) c.nontrivial();
}
// threads compete for quota with distinct ids; nothing else can fail
static void concurrent(Case& c) {
  WdtOptions o;
  size_t nt = c.range(2, 6), per = c.range(2, 30);
  int64_t lim = c.range(1, 6);
  bool global = c.flip();
  bool rel = c.flip();
  o.namespace_sender_limit = global ? 0 : (int)lim;
  o.namespace_receiver_limit = global ? 0 : (int)lim;
  o.global_sender_limit = global ? (int)lim : 0;
  o.global_receiver_limit = global ? (int)lim : 0;
  WdtResourceController k(o);
  int t = (int)c.draw(1);
  c.note([&] { std::ostringstream s; s << nt << " threads, " << per << " creates each, " << (global ? "global" : "namespace") << " limit " << lim << (rel ? " with" : " without") << " releases, " << tn(t); return s.str(); });
  std::atomic<int64_t> live{0}, ok{0}, maxLive{0};
  std::atomic<bool> bad{false};
  std::vector<std::thread> th;
  for (size_t i = 0; i < nt; i++)
    th.emplace_back([&, i] {
      for (size_t j = 0; j < per; j++) {
        std::string id = std::to_string(i) + "-" + std::to_string(j), ns = global ? "n" + std::to_string(i) : "n";
        std::shared_ptr<void> p;
        ErrorCode e = create(k, t, ns, id, req(id, "/nonexistent"), p);
        if (e != OK) {
          if (e != QUOTA_EXCEEDED) bad = true;
          continue;
        }
        ok++;
        int64_t l = ++live, was = maxLive;
        while (l > was && !maxLive.compare_exchange_weak(was, l)) {}
        if (lookup(k, t, ns, id) != p) bad = true;
        if (rel) {
          live--;
          if ((t == 0 ? k.releaseSender(ns, id) : k.releaseReceiver(ns, id)) != OK) bad = true;
          if (lookup(k, t, ns, id)) bad = true;
        }
      }
    });
  for (auto& x : th) x.join();
  PBT_CHECK(c, !bad, "an operation failed with an unexpected error or lookup is wrong");
  PBT_CHECK(c, maxLive <= lim, maxLive << " live objects with a limit of " << lim);
  if (!rel) PBT_EQ(c, (int64_t)ok, std::min<int64_t>(lim, nt * per), "creates that succeeded");
  int32_t nn, s, r;
  k.getCounts(nn, s, r);
  PBT_EQ(c, (int64_t)(t == 0 ? s : r), (int64_t)live, "count at the end");
  PBT_EQ(c, (int64_t)(t == 0 ? r : s), (int64_t)0, "count of the other kind");
  if ((int64_t)ok < (int64_t)(nt * per)) c.nontrivial();
}
int main(int argc, char** argv) {
  pbt::Sub h{"history", [](Case& c) { history(c, false); }, 15000, 500000};
  h.rule = "at least two creates succeeded, one was denied and one object was released";
  pbt::Sub s{"history-stale", [](Case& c) { history(c, true); }, 1200, 30000};
  s.rule = h.rule;
  pbt::Sub k{"concurrent", concurrent, 1500, 40000};
  k.concurrent = true;
  k.rule = "at least one create was denied";
  return pbt::main(argc, argv, "C22", {h, s, k});
}
