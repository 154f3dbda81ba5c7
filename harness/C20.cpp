// variant: asan
// libs: core
// C20: connection URLs.
#include <wdt/WdtTransferRequest.h>
#include <sstream>
#include "pbt.h"
using namespace facebook::wdt;
using pbt::Case;
static const std::string kSafe = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz,:._+-%";
static std::string hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) r += d[c >> 4], r += d[c & 15];
  return r;
}
static std::string text(Case& c) {
  switch (c.draw(4)) {
    case 0: return c.str(0, 12, "abcXYZ019-_.");
    case 1: return c.bytes(0, 20);
    case 2: return c.str(0, 12, "%&=?/:#+ 2fF[],;");
    case 3: return std::string("%zz%4") + c.bytes(0, 4);
    default: return c.blob(c.logRange(0, 300));
  }
}
static std::string host(Case& c) {
  switch (c.draw(5)) {
    case 0: return c.str(1, 30, "abcdefghijz0189-.");
    case 1: return "localhost";
    case 2: return "::1";
    case 3: return c.pick<std::string>({"127.0.0.1", "fe80::1%eth0", "2401:db00:20:700a:face:0:1:0", "::", "::ffff:10.0.0.1", "a:1"});
    case 4: {
      std::string s;
      size_t n = c.range(2, 8);
      for (size_t i = 0; i < n; i++) s += (i ? ":" : "") + c.str(0, 4, "0123456789abcdef");
      return s;
    }
    default: return c.str(1, 12, "abcXYZ_-.~+,;@!$'()*/#%&=0");
  }
}
static std::vector<int32_t> ports(Case& c) {
  std::vector<int32_t> p;
  size_t n = c.logRange(1, 40);
  int how = (int)c.draw(4);
  int32_t first = (int32_t)(c.flip() ? c.range(1, 65535) : c.pick<int32_t>({1, 22356, 65535, 65000}));
  for (size_t i = 0; i < n; i++) {
    if (how <= 1) p.push_back(std::min<int64_t>(65535, first + i));
    else if (how == 2) p.push_back(i + 1 == n ? (int32_t)c.range(1, 65535) : std::min<int64_t>(65535, first + i));
    else if (how == 3) p.push_back(std::max<int64_t>(1, first - (int64_t)i));
    else p.push_back((int32_t)c.range(1, 65535));
  }
  return p;
}
static bool contiguous(const std::vector<int32_t>& p) {
  for (size_t i = 1; i < p.size(); i++)
    if (p[i] != p[i - 1] + 1) return false;
  return true;
}
static std::string showReq(const WdtTransferRequest& r) {
  std::ostringstream o;
  o << "host " << pbt::show(r.hostName) << " id " << pbt::show(r.transferId, 60) << " ns " << pbt::show(r.wdtNamespace, 60) << " dst " << pbt::show(r.destIdentifier, 60) << " v " << r.protocolVersion << " iv " << r.ivChangeInterval
    << " tls " << r.tls << " dr " << r.downloadResumptionEnabled << " enc " << (int)r.encryptionData.getType() << " key " << hex(r.encryptionData.getSecret()) << " ports";
  for (size_t i = 0; i < r.ports.size() && i < 50; i++) o << " " << r.ports[i];
  o << " error " << (int)r.errorCode;
  return o.str();
}
static void sameReq(Case& c, const WdtTransferRequest& a, const WdtTransferRequest& b, const std::string& url) {
  PBT_CHECK(c, b.errorCode == OK, "the URL of a valid request is refused: " << showReq(a) << " URL " << pbt::show(url, 400));
  bool same = a.hostName == b.hostName && a.transferId == b.transferId && a.wdtNamespace == b.wdtNamespace && a.destIdentifier == b.destIdentifier && a.protocolVersion == b.protocolVersion &&
              a.ivChangeInterval == b.ivChangeInterval && a.tls == b.tls && a.downloadResumptionEnabled == b.downloadResumptionEnabled && a.encryptionData.getType() == b.encryptionData.getType() &&
              a.encryptionData.getSecret() == b.encryptionData.getSecret() && a.ports == b.ports;
  PBT_CHECK(c, same, "request " << showReq(a) << " becomes " << showReq(b) << " through " << pbt::show(url, 400));
}
static void roundTrip(Case& c) {
  WdtTransferRequest r;
  r.hostName = host(c);
  r.transferId = text(c);
  r.wdtNamespace = c.flip() ? text(c) : "";
  r.destIdentifier = c.flip() ? text(c) : "";
  r.protocolVersion = c.chance(1, 4) ? c.i64() : c.range(0, 40);
  r.ivChangeInterval = c.chance(1, 4) ? c.i64() : c.logRange(0, 1 << 30);
  r.tls = c.flip();
  r.downloadResumptionEnabled = c.flip();
  r.ports = ports(c);
  std::string key;
  if (c.chance(2, 3)) {
    key = c.flip() ? c.blob(16) : c.bytes(1, 40);
    r.encryptionData = EncryptionParams((EncryptionType)c.range(1, NUM_ENC_TYPES - 1), key);
  }
  c.note([&] { return showReq(r); });
  std::string url = r.genWdtUrlWithSecret();
  WdtTransferRequest back(url);
  sameReq(c, r, back, url);
  PBT_CHECK(c, r == back && back == r, "operator== disagrees after a round trip of " << showReq(r));
  PBT_EQ(c, back.genWdtUrlWithSecret(), url, "generated again");
  size_t q = url.find('?');
  if (q != std::string::npos)
    for (char ch : url.substr(q + 1)) PBT_CHECK(c, ch == '&' || ch == '=' || kSafe.find(ch) != std::string::npos, "character " << pbt::show(std::string(1, ch)) << " in the parameters of " << pbt::show(url, 400));
  // the directory only appears in the loggable form
  r.directory = text(c);
  std::string safe = r.getLogSafeString();
  std::ostringstream os;
  os << r;
  if (key.size() >= 6) {
    std::string u = r.encryptionData.getUrlSafeString();
    for (const std::string& s : {safe, os.str()}) {
      PBT_CHECK(c, s.find(u) == std::string::npos, "secret in the loggable form " << s);
      PBT_CHECK(c, s.find(hex(key)) == std::string::npos, "secret in the loggable form " << s);
    }
    if (key.size() == 16) {
      std::string p = WdtUri::escape(r.transferId + r.wdtNamespace + r.destIdentifier + r.directory);
      for (size_t i = 0; i + 7 <= key.size(); i++) {
        std::string w = hex(key.substr(i, 7));
        if (p.find(w) != std::string::npos || std::count(w.begin(), w.end(), w[0]) > 8) continue;
        for (const std::string& s : {safe, os.str()}) PBT_CHECK(c, s.find(w) == std::string::npos, "part of the secret " << hex(key) << " in the loggable form " << s);
      }
    }
    c.label("with secret");
  }
  c.label(contiguous(r.ports) ? "contiguous ports" : "port list");
  if (r.hostName.find(':') != std::string::npos) c.label("IPv6");
  bool special = false;
  for (char ch : r.transferId) special |= kSafe.find(ch) == std::string::npos || ch == '%';
  if (special || r.hostName.find(':') != std::string::npos || !contiguous(r.ports)) c.nontrivial();
}
// differences must be visible
static void distinct(Case& c) {
  WdtTransferRequest a;
  a.hostName = host(c);
  a.transferId = text(c);
  a.wdtNamespace = text(c);
  a.destIdentifier = text(c);
  a.ports = ports(c);
  std::string key = c.blob(16);
  a.encryptionData = EncryptionParams(ENC_AES128_GCM, key);
  WdtTransferRequest b = a;
  int f = (int)c.draw(6);
  switch (f) {
    case 0: b.transferId += "x"; break;
    case 1: std::swap(b.wdtNamespace, b.destIdentifier); if (b.wdtNamespace == b.destIdentifier) b.wdtNamespace += "q"; break;
    case 2: b.ports.push_back(7); break;
    case 3: b.protocolVersion--; break;
    case 4: key[c.draw(15)] ^= 1; b.encryptionData = EncryptionParams(ENC_AES128_GCM, key); break;
    case 5: b.encryptionData = EncryptionParams(ENC_AES128_CTR, key); break;
    default: b.hostName += "x"; break;
  }
  c.note([&] { return "field " + std::to_string(f) + " of " + showReq(a); });
  std::string ua = a.genWdtUrlWithSecret(), ub = b.genWdtUrlWithSecret();
  PBT_CHECK(c, !(a == b), "requests differing in field " << f << " compare equal");
  PBT_CHECK(c, ua != ub, "requests differing in field " << f << " have the same URL");
  PBT_CHECK(c, !(WdtTransferRequest(ua) == WdtTransferRequest(ub)), "requests differing in field " << f << " compare equal after the URL");
  c.nontrivial();
}
static bool refUnescape(const std::string& s, std::string& r) {
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '%') { r += s[i]; continue; }
    static const std::string d = "0123456789abcdef";
    if (i + 2 >= s.size()) return false;
    size_t h = d.find(s[i + 1]), l = d.find(s[i + 2]);
    if (h == std::string::npos || l == std::string::npos) return false;
    r += (char)(h * 16 + l);
    i += 2;
  }
  return true;
}
static void escaping(Case& c) {
  std::string s = c.flip() ? text(c) : c.bytes(0, 200);
  c.note([&] { return pbt::show(s, 300); });
  std::string e = WdtUri::escape(s), r = "";
  for (char ch : e) PBT_CHECK(c, kSafe.find(ch) != std::string::npos, "escaped form " << pbt::show(e));
  PBT_CHECK(c, WdtUri::unescape(r, e), "escaped " << pbt::show(e) << " is refused");
  PBT_CHECK(c, r == s, pbt::show(s) << " becomes " << pbt::show(r) << " through " << e);
  std::string pre = "pre";
  PBT_CHECK(c, WdtUri::unescape(pre, e) && pre == "pre" + s, "unescape does not append");
  // arbitrary text
  std::string x = c.str(0, 20, "%%%019afAFgz x"), g, w;
  bool okG = WdtUri::unescape(g, x), okW = refUnescape(x, w);
  PBT_EQ(c, okG, okW, "unescape of " << pbt::show(x));
  if (okW) PBT_CHECK(c, g == w, "unescape of " << pbt::show(x) << " is " << pbt::show(g) << " instead of " << pbt::show(w));
  // a whole URI with arbitrary parameter values
  WdtUri u;
  u.setHostName(host(c));
  if (c.flip()) u.setPort((int32_t)c.range(1, INT32_MAX));
  std::map<std::string, std::string> kv;
  size_t n = c.range(0, 6);
  for (size_t i = 0; i < n; i++) {
    std::string k = c.str(1, 6, "abcdefxyz_-019"), v = text(c);
    u.setQueryParam(k, v);
    kv[k] = v;
  }
  std::string url = u.generateUrl();
  WdtUri b(url);
  for (auto it = kv.begin(); it != kv.end();) it = it->second.empty() ? kv.erase(it) : std::next(it);
  PBT_CHECK(c, b.getErrorCode() == OK && b.getHostName() == u.getHostName() && b.getPort() == u.getPort() && b.getQueryParams() == kv, "URI " << pbt::show(url, 300) << " parses differently: host " << b.getHostName() << " port "
                                                                                                                        << b.getPort() << " params " << b.getQueryParams().size() << " error " << (int)b.getErrorCode());
  if (e != s && n >= 2) c.nontrivial();
}
static std::string junkUrl(Case& c) {
  std::string s;
  static const std::vector<std::string> tok = {"wdt://", "wdt:/", "[", "]", ":", "?", "&", "=", "%", "%4", "%41", "%zz", "ports", "num_ports", "start_port", "Enc", "id", "recpv", "tls", "dr", "iv_change_int", "ns", "dstid", "dir",
                                               "1", "2:", "3:abcdef0123456789", "22356", "-1", "0", "99999999999999999999", "2147483647", "1,2,3", ",,", "true", "x", "::1", "localhost", "\0", "/"};
  size_t n = c.logRange(0, 25);
  if (c.chance(2, 3)) s = "wdt://h";
  for (size_t i = 0; i < n; i++) s += c.chance(1, 8) ? c.bytes(1, 3) : c.pick(tok);
  return s;
}
static void arbitrary(Case& c) {
  std::string s;
  if (c.flip()) {
    s = junkUrl(c);
  } else {
    WdtTransferRequest r;
    r.hostName = host(c);
    r.transferId = text(c);
    r.ports = ports(c);
    r.encryptionData = EncryptionParams(ENC_AES128_CTR, c.blob(16));
    s = r.genWdtUrlWithSecret();
    size_t n = c.range(1, 3);
    for (size_t i = 0; i < n && !s.empty(); i++) {
      size_t p = c.draw(s.size() - 1);
      switch (c.draw(3)) {
        case 0: s[p] = (char)c.draw(255); break;
        case 1: s.erase(p, c.range(1, 8)); break;
        case 2: s.insert(p, c.pick<std::string>({"&", "?", "%", "num_ports=", "&num_ports=2147483647", "&num_ports=-5", "&start_port=2147483647", "&ports=9,8", "&Enc=1:", "&Enc=0:aa", "&Enc=ffffffffffffffffffff:aa", "99999999999"})); break;
        default: s.resize(p); break;
      }
    }
  }
  c.note([&] { return pbt::show(s, 600); });
  WdtTransferRequest r(s);
  c.label(r.errorCode == OK ? "accepted" : "refused");
  r.getLogSafeString();
  if (r.errorCode != OK) {
    PBT_EQ(c, r.genWdtUrlWithSecret(), errorCodeToStr(r.errorCode), "URL of a request with an error");
  } else {
    PBT_CHECK(c, !r.hostName.empty(), "accepted without a host");
    PBT_CHECK(c, s.compare(0, 6, "wdt://") == 0, "accepted without the scheme");
    bool plain = !r.ports.empty();
    for (auto p : r.ports) plain &= p > 0;
    for (char ch : r.hostName) plain &= isalnum((unsigned char)ch) || ch == '.' || ch == '-' || ch == ':' || ch == '_';
    if (plain) {
      r.directory.clear();
      std::string u = r.genWdtUrlWithSecret();
      WdtTransferRequest b(u);
      sameReq(c, r, b, u);
      c.label("accepted and regenerated");
    }
  }
  // assignment keeps nothing of the previous URL
  WdtUri u("wdt://old:1?old=1"), v(s);
  u = s;
  PBT_CHECK(c, u.getErrorCode() == v.getErrorCode() && u.getHostName() == v.getHostName() && u.getQueryParams() == v.getQueryParams(), "assigning " << pbt::show(s) << " keeps old parts");
  if (s.size() > 12) c.nontrivial();
}
int main(int argc, char** argv) {
  pbt::Sub r{"roundtrip", roundTrip, 60000, 2500000};
  r.rule = "id needs escaping, the host is IPv6, or the ports are not contiguous";
  pbt::Sub d{"distinct", distinct, 15000, 300000};
  d.rule = "always (two requests that differ in one field)";
  pbt::Sub e{"escaping", escaping, 60000, 2500000};
  e.rule = "text that needs escaping and at least two parameters";
  pbt::Sub a{"arbitrary", arbitrary, 150000, 5000000};
  a.rule = "string longer than 12 bytes";
  return pbt::main(argc, argv, "C20", {r, d, e, a});
}
