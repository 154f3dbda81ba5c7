// variant: asan
// libs: core
// extra: common_proc.cpp
// C13: a transfer log is trusted only for its own transfer; corruption never crashes it.
#include <wdt/util/SerializationUtil.h>
#include "common_log.h"
using namespace tl;
namespace {
std::string show(const std::vector<E>& v) {
  std::string r;
  for (auto& e : v) r += "\n    " + str(e);
  return r;
}
struct Quiet {  // parseAndPrint writes to cout
  std::ostringstream sink;
  std::streambuf* old;
  Quiet() : old(std::cout.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(old); }
};
// sessions of several transfers with different ids, configurations and senders in one directory
void foreign(Case& c) {
  allowHugeFiles();
  std::string root = c.scratch() + "/r";
  mkdir(root.c_str(), 0755);
  std::string log = root + "/" + kWdtLogName;
  std::vector<std::string> rids{"rid", c.pick<std::string>({"", "ri", "rid2", "RID", "rid "})};
  std::vector<std::string> ips{"::1", c.pick<std::string>({"::2", "10.0.0.1", "::11"})};
  std::vector<E> es;
  Gen g(c, root, false);
  int ns = (int)c.range(2, 6), refused = 0, kept = 0;
  int stay = (int)c.range(1, 6);  // how likely things change
  std::string rid = rids[0], ip = ips[0];
  bool noPre = c.flip(), noVerify = false;
  int64_t names = 0;
  for (int k = 0; k < ns; k++) {
    if (k) {
      if (c.chance(1, stay + 1)) rid = c.pick(rids);
      if (c.chance(1, stay + 1)) ip = c.pick(ips);
      if (c.chance(1, stay + 2)) noPre = !noPre;
      noVerify = c.chance(1, 4);
    }
    WdtOptions o;
    o.enable_download_resumption = true;
    o.disable_preallocation = noPre;
    o.disable_sender_verification_during_resumption = noVerify;
    o.transfer_log_write_interval_ms = 1;
    g.prealloc = !noPre;
    State want = eval(es, es.size(), root, rid, config(o), !noPre);
    Log m(o, root);
    PBT_EQ(c, m.openLog(), OK, "");
    std::vector<FileChunksInfo> v;
    ErrorCode e = m.parseAndMatch(rid, config(o), v);
    std::string when = "in session " + std::to_string(k);
    c.note([&] { return "session " + std::to_string(k) + " recovery id '" + rid + "' sender " + ip + (noPre ? "" : " preallocating") + (noVerify ? " senders not matched" : "") + " log:" + show(es); });
    compare(c, want, e, v, when);
    PBT_EQ(c, m.getResumptionStatus(), want.status, "resumption status");
    if (e == INVALID_LOG) return;  // model agrees
    if (want.status == INCONSISTENT_DIRECTORY) {
      PBT_CHECK(c, v.empty(), "blocks restored from an inconsistent directory");
      E d; d.t = DIRINV; es.push_back(d);
      refused++;
    } else {
      for (int64_t q : want.invalid) { E x; x.t = INVAL; x.seq = q; es.push_back(x); }
    }
    for (auto& f : want.files) if (!f.second.blocks.empty()) kept++;
    PBT_EQ(c, m.startThread(), OK, "starting the log");
    bool match = noVerify || want.ip.empty() || want.ip == ip;
    PBT_EQ(c, m.verifySenderIp(ip), match, "sender " << ip << " for a log of " << want.ip);
    if (!match) {
      E d; d.t = DIRINV; es.push_back(d);
      refused++;
      PBT_EQ(c, m.getResumptionStatus(), INCONSISTENT_DIRECTORY, "status after another sender");
    }
    if (c.chance(1, 6)) continue;  // dies before the header
    // what the receiver knows now
    g.live.clear();
    if (match && want.status == OK) for (auto& f : want.files) g.live[f.first] = {f.second.name, f.second.logged};
    if (match && want.status == OK && c.chance(1, 8)) {  // the sender does not resume
      m.invalidateDirectory();
      E d; d.t = DIRINV; es.push_back(d);
      g.live.clear();
    }
    m.writeLogHeader();
    PBT_EQ(c, m.getResumptionStatus(), OK, "a header makes the directory valid");
    E h; h.t = HDR; h.s = rid; h.ip = ip; h.a = config(o);
    es.push_back(h);
    // sequence ids start again when nothing was restored
    if (g.live.empty()) { g.nextSeq = 0; g.freed.clear(); }
    g.names = (int)(names += 1000);
    for (int i = 0, n = (int)c.logRange(0, 12); i < n; i++) { E x = g.next(); add(m, x); es.push_back(x); }
  }
  c.note([&] { return "finally:" + show(es); });
  // finally read with both ids
  for (auto& r : rids)
    for (int np = 0; np < 2; np++) {
      WdtOptions o;
      o.enable_download_resumption = true;
      o.disable_preallocation = np;
      std::string keep = readAll(log);
      State want = eval(es, es.size(), root, r, config(o), !np);
      {
        Log m(o, root);
        PBT_EQ(c, m.openLog(), OK, "");
        std::vector<FileChunksInfo> v;
        ErrorCode e = m.parseAndMatch(r, config(o), v);
        compare(c, want, e, v, "in the final read with '" + r + "'" + (np ? "" : " preallocating"));
      }
      if (want.status == INCONSISTENT_DIRECTORY) {
        // and it stays inconsistent, whoever reads it next
        for (auto& r2 : rids) {
          Log m(o, root);
          PBT_EQ(c, m.openLog(), OK, "");
          std::vector<FileChunksInfo> v;
          ErrorCode e = m.parseAndMatch(r2, config(o), v);
          PBT_EQ(c, e, INCONSISTENT_DIRECTORY, "read with '" << r2 << "' after a session found it inconsistent");
          PBT_CHECK(c, v.empty(), "blocks restored from an inconsistent directory");
        }
      }
      writeAll(log, keep);
    }
  if (refused && kept) c.nontrivial();
  if (refused) c.label("refused");
  if (kept) c.label("restored");
}
// reads a log with any content; whatever comes back must be possible
void readAny(Case& c, const std::string& root, const std::string& bytes, const WdtOptions& o, const std::string& rid) {
  std::string log = root + "/" + kWdtLogName;
  writeAll(log, bytes);
  {
    Quiet q;
    Log m(o, root);
    PBT_EQ(c, m.openLog(), OK, "");
    m.parseAndPrint();
    m.closeLog();
    PBT_CHECK(c, readAll(log) == bytes, "printing changed the log");
  }
  ErrorCode first = OK;
  std::string firstState;
  for (int k = 0; k < 2; k++) {
    Log m(o, root);
    PBT_EQ(c, m.openLog(), OK, "");
    std::vector<FileChunksInfo> v;
    ErrorCode e = m.parseAndMatch(rid, config(o), v);
    PBT_CHECK(c, e == OK || e == INVALID_LOG || e == INCONSISTENT_DIRECTORY, "status " << e);
    if (e != OK) PBT_CHECK(c, v.empty(), "blocks restored with status " << errorCodeToStr(e));
    std::ostringstream st;
    std::set<int64_t> ids;
    for (auto& f : v) {
      PBT_CHECK(c, ids.insert(f.getSeqId()).second, "sequence id twice " << f.getSeqId());
      struct stat sb;
      PBT_CHECK(c, stat((root + "/" + f.getFileName()).c_str(), &sb) == 0, "restored a file which is not there: " << pbt::show(f.getFileName()));
      PBT_CHECK(c, S_ISREG(sb.st_mode), "restored something which is not a file: " << pbt::show(f.getFileName()));
      PBT_EQ(c, f.getFileSize(), (int64_t)sb.st_size, "size of " << pbt::show(f.getFileName()));
      st << f.getSeqId() << " " << f.getFileName() << ":";
      for (auto& x : f.getChunks()) {
        PBT_CHECK(c, x.start_ >= 0 && x.end_ >= x.start_ && x.end_ <= f.getFileSize(), "restored [" << x.start_ << "," << x.end_ << ") of a file of size " << f.getFileSize());
        st << x.start_ << "-" << x.end_ << ",";
      }
      if (!f.getChunks().empty()) c.label("something restored");
    }
    if (k == 0) { first = e; firstState = st.str(); }
    else {
      PBT_EQ(c, e, first, "status of the second read");
      PBT_EQ(c, st.str(), firstState, "state of the second read");
    }
    if (e == INVALID_LOG) {
      // nothing is written to it any more
      m.startThread();
      m.verifySenderIp("1.1.1.1");
      m.writeLogHeader();
      m.addFileCreationEntry("x", 1, 2);
      m.addBlockWriteEntry(1, 0, 2);
      m.addFileInvalidationEntry(1);
      m.closeLog();
      PBT_CHECK(c, readAll(log) == bytes, "an invalid log was changed");
      c.label("invalid log");
    } else if (e == OK) {
      c.label("still valid");
    } else {
      c.label("inconsistent");
    }
  }
  // the log is usable again after a session which started anew
  if (first != INVALID_LOG && !o.resume_using_dir_tree) {
    {
      Log m(o, root);
      PBT_EQ(c, m.openLog(), OK, "");
      std::vector<FileChunksInfo> v;
      m.parseAndMatch(rid, config(o), v);
      PBT_EQ(c, m.startThread(), OK, "");
      m.invalidateDirectory();
      m.verifySenderIp("9.9.9.9");
      m.writeLogHeader();
      setSize(root, "fresh", 77);
      m.addFileCreationEntry("fresh", 5, 77);
      m.addBlockWriteEntry(5, 7, 70);
    }
    Log m(o, root);
    PBT_EQ(c, m.openLog(), OK, "");
    std::vector<FileChunksInfo> v;
    PBT_EQ(c, m.parseAndMatch(rid, config(o), v), OK, "a new session after corruption");
    PBT_CHECK(c, v.size() == 1 && v[0].getFileName() == "fresh" && v[0].getChunks().size() == 1 && v[0].getChunks()[0] == Interval(7, 77), "a new session after corruption restores " << v.size() << " files");
  }
}
// ---- building logs entry by entry ----
int64_t hostile(Case& c, int64_t normal) {
  switch (c.weighted({6, 2, 2, 1, 1, 1})) {
    case 0: return normal;
    case 1: return c.i64();
    case 2: return normal + c.range(-3, 3);
    case 3: return std::numeric_limits<int64_t>::max() - c.logRange(0, 100000);
    case 4: return std::numeric_limits<int64_t>::min() + c.logRange(0, 100000);
    default: return -c.logRange(1, 1000);
  }
}
void setup(Case& c, const std::string& root, std::vector<std::pair<std::string, int64_t>>& files) {
  mkdir(root.c_str(), 0755);
  for (int i = 0, n = (int)c.range(1, 3); i < n; i++) {
    std::string nm = "f" + std::to_string(i);
    int64_t s = c.logRange(0, 10000);
    setSize(root, nm, s);
    files.push_back({nm, s});
  }
  mkdir((root + "/dir").c_str(), 0755);
  files.push_back({"dir", 100});
  files.push_back({"missing", 100});
}
// entries with any field values (the encoder of the library refuses negative ones)
std::string entry(int type, std::initializer_list<std::string> fields) {
  std::string b(1, (char)type);
  for (auto& f : fields) b += f;
  return std::string{(char)b.size(), (char)(b.size() >> 8)} + b;
}
std::string num(int64_t v) { std::string s; encodeVarU64(s, (uint64_t)v); return s; }
std::string text(const std::string& t) { return num(t.size()) + t; }
void hostileEntries(Case& c) {
  std::string root = c.scratch() + "/r";
  std::vector<std::pair<std::string, int64_t>> files;
  setup(c, root, files);
  WdtOptions o;
  o.enable_download_resumption = true;
  o.disable_preallocation = c.flip();
  o.transfer_log_write_interval_ms = 1;
  if (c.chance(1, 6)) { o.resume_using_dir_tree = true; o.disable_preallocation = true; }
  const std::string now = num(1700000000000000LL);
  std::string bytes;
  std::vector<int64_t> seqs{0, 1, 2};
  bool odd = false;
  int n = (int)c.range(1, 14);
  std::string txt;
  auto seq = [&] { return c.chance(1, 8) ? hostile(c, 1) : c.pick(seqs); };
  for (int i = 0; i < n; i++) {
    std::ostringstream d;
    std::string ts = c.chance(1, 30) ? num(c.i64()) : now;
    switch (i == 0 ? c.weighted({12, 1, 1, 1, 1, 1}) : c.weighted({1, 5, 8, 3, 2, 1})) {
      case 0: {
        std::string r = c.chance(1, 8) ? "other" : "rid", ip = c.chance(1, 12) ? "" : "1.1.1.1";
        int64_t cf = c.chance(1, 8) ? hostile(c, config(o)) : config(o);
        bytes += entry(HDR, {ts, num(c.chance(1, 30) ? c.i64() : TransferLogManager::WLOG_VERSION), text(r), text(ip), num(cf)});
        d << "header " << r << " " << ip << " " << cf;
        break;
      }
      case 1: {
        auto f = c.pick(files);
        std::string nm = f.first;
        if (c.chance(1, 8)) nm = c.pick<std::string>({"", "/", "../r/f0", "/etc/hostname", ".", "..", std::string(1, 0), std::string(4000, 'x'), "f0/x", std::string("f0\0b", 4)});
        int64_t s = hostile(c, f.second), q = seq();
        bytes += entry(TransferLogManager::FILE_CREATION, {ts, text(nm), num(q), num(s)});
        d << "create " << q << " " << pbt::show(nm, 30) << " " << s;
        if (s < 0 || s > f.second) odd = true;
        break;
      }
      case 2: {
        auto f = c.pick(files);
        int64_t off = c.range(0, f.second), len = c.range(0, f.second - off);
        off = hostile(c, off);
        len = hostile(c, len);
        int64_t q = seq();
        bytes += entry(TransferLogManager::BLOCK_WRITE, {ts, num(q), num(off), num(len)});
        d << "block " << q << " " << off << "+" << len;
        if (off < 0 || len < 0 || off > 100000 || len > 100000) odd = true;
        break;
      }
      case 3: { int64_t q = seq(), s = hostile(c, 100); bytes += entry(TransferLogManager::FILE_RESIZE, {ts, num(q), num(s)}); d << "resize " << q << " " << s; break; }
      case 4: { int64_t q = seq(); bytes += entry(TransferLogManager::FILE_INVALIDATION, {ts, num(q)}); d << "invalidate " << q; break; }
      default: bytes += entry(TransferLogManager::DIRECTORY_INVALIDATION, {ts}); d << "dir-invalid";
    }
    txt += "\n    " + d.str();
  }
  c.note([&] { return std::string(o.disable_preallocation ? "" : "preallocating ") + (o.resume_using_dir_tree ? "tree " : "") + "files " + std::to_string(files.size()) + txt; });
  readAny(c, root, bytes, o, "rid");
  if (odd) c.nontrivial();
}
// a well-formed log of a real session, then damaged
void corrupt(Case& c) {
  std::string root = c.scratch() + "/r";
  mkdir(root.c_str(), 0755);
  WdtOptions o;
  o.enable_download_resumption = true;
  o.disable_preallocation = c.flip();
  o.transfer_log_write_interval_ms = 1;
  std::string bytes;
  std::vector<E> es;
  if (!c.chance(1, 6)) {
    Gen g(c, root, !o.disable_preallocation);
    Log m(o, root);
    PBT_EQ(c, m.openLog(), OK, "");
    std::vector<FileChunksInfo> v;
    PBT_EQ(c, m.parseAndMatch("rid", config(o), v), OK, "");
    m.startThread();
    m.verifySenderIp("1.2.3.4");
    m.writeLogHeader();
    for (int i = 0, n = (int)c.logRange(1, 20); i < n; i++) { es.push_back(g.next()); add(m, es.back()); }
    m.closeLog();
    bytes = readAll(root + "/" + kWdtLogName);
  } else {
    bytes = c.bytes(0, 200);
  }
  std::string orig = bytes;
  std::ostringstream d;
  for (int i = 0, n = (int)c.range(1, 4); i < n; i++) {
    auto fr = frames(bytes);
    size_t p = bytes.empty() ? 0 : c.draw(bytes.size() - 1);
    switch (c.weighted({4, 2, 2, 2, 2, 1, 2, 1})) {
      case 0: if (!bytes.empty()) { int b = (int)c.draw(7); bytes[p] ^= 1 << b; d << " flip " << p << "." << b; } break;
      case 1: if (!bytes.empty()) { bytes[p] = (char)c.draw(255); d << " set " << p; } break;
      case 2: bytes.insert(p, c.bytes(1, 12)); d << " insert at " << p; break;
      case 3: { size_t k = std::min<size_t>(bytes.size() - p, c.logRange(1, 40)); bytes.erase(p, k); d << " erase " << p << "+" << k; break; }
      case 4: if (fr.size() > 1) {  // entries swapped
          size_t a = c.draw(fr.size() - 1), b = c.draw(fr.size() - 1);
          if (a > b) std::swap(a, b);
          if (a == b) break;
          std::string A = bytes.substr(fr[a].first, fr[a].second - fr[a].first), B = bytes.substr(fr[b].first, fr[b].second - fr[b].first);
          bytes.replace(fr[b].first, B.size(), A);
          bytes.replace(fr[a].first, A.size(), B);
          d << " swap " << a << " " << b;
        } break;
      case 5: if (!fr.empty()) { auto f = c.pick(fr); bytes.insert(f.second, bytes.substr(f.first, f.second - f.first)); d << " repeat entry at " << f.first; } break;
      case 6: if (!fr.empty()) {
          auto f = c.pick(fr); int v = (int)c.pick<int64_t>({0, -1, 1, 32767, -32768, 4119, 4120, 4117, 255, 4129, 4130, 4131, 8000});
          bytes[f.first] = (char)v; bytes[f.first + 1] = (char)(v >> 8);
          if (v > 4000 && c.flip()) bytes += c.blob(v);  // enough bytes to fill such an entry
          d << " length of entry at " << f.first << " = " << v;
        } break;
      default: if (!fr.empty()) { auto f = c.pick(fr); if (f.second > f.first + 2) { bytes[f.first + 2] = (char)c.pick({6, 7, 100, 255, 0, 1, 2, 3, 4, 5}); d << " type of entry at " << f.first; } } break;
    }
  }
  c.note([&] { return std::string(o.disable_preallocation ? "" : "preallocating ") + "log of " + std::to_string(orig.size()) + " bytes:" + show(es) + "\n  damage:" + d.str(); });
  if (bytes != orig) c.nontrivial();
  readAny(c, root, bytes, o, "rid");
}
// files on disk change between sessions
void disk(Case& c) {
  std::string root = c.scratch() + "/r";
  mkdir(root.c_str(), 0755);
  WdtOptions o;
  o.enable_download_resumption = true;
  o.disable_preallocation = c.flip();
  o.transfer_log_write_interval_ms = 1;
  bool pre = !o.disable_preallocation;
  Gen g(c, root, pre);
  std::vector<E> es;
  {
    Log m(o, root);
    PBT_EQ(c, m.openLog(), OK, "");
    std::vector<FileChunksInfo> v;
    m.parseAndMatch("rid", config(o), v);
    m.startThread();
    m.verifySenderIp("1.2.3.4");
    m.writeLogHeader();
    for (int i = 0, n = (int)c.range(1, 15); i < n; i++) { es.push_back(g.next()); add(m, es.back()); }
  }
  std::set<std::string> bad, cutBad;
  std::string txt;
  for (auto& l : g.live) {
    std::string p = root + "/" + l.second.name;
    switch (c.weighted({3, 2, 2, 1, 1})) {
      case 1: ::unlink(p.c_str()); bad.insert(l.second.name); txt += "\n  removed " + l.second.name; break;
      case 2: {
        int64_t s = diskSize(root, l.second.name);
        if (s <= 0) break;
        int64_t ns = c.range(0, s - 1);
        if (truncate(p.c_str(), ns)) {}
        cutBad.insert(l.second.name);
        txt += "\n  cut " + l.second.name + " to " + std::to_string(ns);
        break;
      }
      case 3: ::unlink(p.c_str()); mkdir(p.c_str(), 0755); bad.insert(l.second.name); txt += "\n  now a directory: " + l.second.name; break;
      case 4: if (diskSize(root, l.second.name) >= 0) setSize(root, l.second.name, diskSize(root, l.second.name) + 10); txt += "\n  grown " + l.second.name; break;
      default: break;
    }
  }
  c.note([&] { return std::string(pre ? "preallocating" : "") + show(es) + txt; });
  Log m(o, root);
  PBT_EQ(c, m.openLog(), OK, "");
  std::vector<FileChunksInfo> v;
  ErrorCode e = m.parseAndMatch("rid", config(o), v);
  std::map<int64_t, Iv> logged;
  for (auto& x : es) {
    if (x.t == CREATE) logged[x.seq].clear();
    if (x.t == BLOCK) logged[x.seq].push_back({x.a, x.a + x.b});
  }
  std::set<std::string> got;
  for (auto& f : v) {
    const std::string& n = f.getFileName();
    got.insert(n);
    PBT_CHECK(c, !bad.count(n), n << " is not there as a file but was restored");
    int64_t s = diskSize(root, n);
    PBT_EQ(c, f.getFileSize(), s, "size of " << n);
    if (pre) PBT_CHECK(c, s >= g.live[f.getSeqId()].size, n << " has " << s << " bytes on disk, recorded were " << g.live[f.getSeqId()].size);
    Iv iv;
    for (auto& x : f.getChunks()) {
      PBT_CHECK(c, x.end_ <= s, n << " restored up to " << x.end_ << " but has " << s << " bytes");
      iv.push_back({x.start_, x.end_});
    }
    PBT_EQ(c, ivStr(normal(iv)), ivStr(normal(logged[f.getSeqId()])), "blocks of " << n);
  }
  // files that were not touched are still known unless the whole log was given up
  if (e == OK)
    for (auto& l : g.live) {
      if (!bad.count(l.second.name) && !cutBad.count(l.second.name)) PBT_CHECK(c, got.count(l.second.name), l.second.name << " was not restored although nothing happened to it");
    }
  if (cutBad.empty() || !pre) PBT_EQ(c, e, OK, "status after files were lost or changed their size");
  if (!bad.empty() || !cutBad.empty()) c.nontrivial();
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::main(argc, argv, "C13",
                   {{"foreign", foreign, 12000, 200000, 60, true, "one session was refused and blocks were restored in another"},
                    {"hostile", hostileEntries, 40000, 700000, 60, false, "a size or offset is impossible"},
                    {"corrupt", corrupt, 20000, 400000, 60, true, "the log was changed"},
                    {"disk", disk, 20000, 300000, 60, true, "a file was removed, cut or replaced"}});
}
