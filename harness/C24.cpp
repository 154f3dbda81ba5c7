// variant: asan
// libs: core
// C24: sums of statistics and the verdict of transfer reports, against a model.
#include <wdt/Reporting.h>
#include <algorithm>
#include <set>
#include <sstream>
#include <thread>
#include "pbt.h"
using namespace facebook::wdt;
using pbt::Case;

struct M {  // model of TransferStats
  int64_t header{0}, data{0}, effHeader{0}, effData{0}, files{0}, blocks{0}, failed{0};
  int64_t sent{-1}, senderBytes{-1};
  ErrorCode local{OK}, remote{OK};
  EncryptionType enc{ENC_NONE};
  bool tls{false};
  std::string id;
  ErrorCode code() const { return std::max(local, remote); }
};
static const int kCodes = AUTH_ERROR + 1;
static ErrorCode genCode(Case& c, unsigned okOf10) {
  if (c.chance(okOf10, 10)) return OK;
  if (c.chance(1, 3)) return c.pick({ERROR, CONN_ERROR, ENCRYPTION_ERROR, CHECKSUM_MISMATCH, ABORTED_BY_APPLICATION});
  return (ErrorCode)c.draw(kCodes - 1);
}
static TransferStats mk(Case& c, const M& m, bool locked) {
  TransferStats s(m.id, locked);
  s.addHeaderBytes(m.header);
  // split the additions, they accumulate
  int64_t a = c.flip() ? m.data / 2 : 0;
  s.addDataBytes(a);
  s.addDataBytes(m.data - a);
  if (c.chance(1, 4)) {
    s.addEffectiveBytes(m.effHeader + 7, m.effData + 9);
    s.subtractEffectiveBytes(7, 9);
  } else
    s.addEffectiveBytes(m.effHeader, m.effData);
  s.setNumFiles(m.files);
  for (int64_t i = 0; i < m.blocks; i++) s.incrNumBlocks();
  if (c.chance(1, 4)) {
    s.incrNumBlocks();
    s.decrNumBlocks();
  }
  for (int64_t i = 0; i < m.failed; i++) s.incrFailedAttempts();
  if (m.sent != -1 || c.flip()) s.setNumBlocksSend(m.sent);
  if (m.senderBytes != -1 || c.flip()) s.setTotalSenderBytes(m.senderBytes);
  s.setLocalErrorCode(m.local);
  s.setRemoteErrorCode(m.remote);
  s.setEncryptionType(m.enc);
  s.setTls(m.tls);
  return s;
}
static std::string show(const M& m) {
  std::ostringstream o;
  o << "{" << m.id << " header " << m.header << " data " << m.data << " effective " << m.effHeader << "+" << m.effData << " files " << m.files << " blocks " << m.blocks << " failed " << m.failed << " announced blocks " << m.sent << " bytes " << m.senderBytes
    << " local " << errorCodeToStr(m.local) << " remote " << errorCodeToStr(m.remote) << " enc " << m.enc << " tls " << m.tls << "}";
  return o.str();
}
static void same(Case& c, const TransferStats& s, const M& m, const std::string& ctx) {
  PBT_EQ(c, s.getHeaderBytes(), m.header, ctx);
  PBT_EQ(c, s.getDataBytes(), m.data, ctx);
  PBT_EQ(c, s.getTotalBytes(), m.data + m.header, ctx);
  PBT_EQ(c, s.getTotalBytes(false), m.data + m.header, ctx);
  PBT_EQ(c, s.getEffectiveHeaderBytes(), m.effHeader, ctx);
  PBT_EQ(c, s.getEffectiveDataBytes(), m.effData, ctx);
  PBT_EQ(c, s.getEffectiveTotalBytes(), m.effData + m.effHeader, ctx);
  PBT_EQ(c, s.getNumFiles(), m.files, ctx);
  PBT_EQ(c, s.getNumBlocks(), m.blocks, ctx);
  PBT_EQ(c, s.getFailedAttempts(), m.failed, ctx);
  PBT_EQ(c, s.getNumBlocksSend(), m.sent, ctx);
  PBT_EQ(c, s.getTotalSenderBytes(), m.senderBytes, ctx);
  PBT_EQ(c, errorCodeToStr(s.getLocalErrorCode()), errorCodeToStr(m.local), ctx);
  PBT_EQ(c, errorCodeToStr(s.getRemoteErrorCode()), errorCodeToStr(m.remote), ctx);
  PBT_EQ(c, errorCodeToStr(s.getErrorCode()), errorCodeToStr(m.code()), ctx);
  PBT_EQ(c, (int)s.getEncryptionType(), (int)m.enc, ctx);
  PBT_EQ(c, s.getTls(), m.tls, ctx);
}
static void add(M& a, const M& b, bool& conflict) {
  a.header += b.header;
  a.data += b.data;
  a.effHeader += b.effHeader;
  a.effData += b.effData;
  a.files += b.files;
  a.blocks += b.blocks;
  a.failed += b.failed;
  auto announce = [&](int64_t& x, int64_t y) {
    if (x == -1)
      x = y;
    else if (y != -1 && y != x) {
      conflict = true;
      a.local = std::max(a.local, ERROR);
    }
  };
  announce(a.sent, b.sent);
  announce(a.senderBytes, b.senderBytes);
  a.local = std::max(a.local, b.local);
  a.remote = std::max(a.remote, b.remote);
  if (b.local == OK && b.remote == OK) {
    a.enc = b.enc;
    a.tls = b.tls;
  }
}
static int64_t genBytes(Case& c) { return c.chance(1, 4) ? 0 : c.chance(1, 8) ? c.logRange(0, 1LL << 50) : c.logRange(0, 5000); }
static M genStats(Case& c, unsigned okOf10, int64_t announceBlocks, int64_t announceBytes) {
  M m;
  m.header = genBytes(c);
  m.effHeader = c.logRange(0, m.header);
  m.data = genBytes(c);
  m.effData = c.flip() ? m.data : c.logRange(0, m.data);
  m.files = c.logRange(0, 100);
  m.blocks = c.logRange(0, 12);
  m.failed = c.chance(2, 3) ? 0 : c.logRange(0, 4);
  if (c.flip()) {
    m.sent = c.chance(5, 6) ? announceBlocks : c.range(0, 12);
    m.senderBytes = c.chance(5, 6) ? announceBytes : c.range(-1, 5000);
  }
  m.local = genCode(c, okOf10);
  m.remote = genCode(c, okOf10);
  m.enc = (EncryptionType)c.draw(NUM_ENC_TYPES - 1);
  m.tls = c.flip();
  m.id = "t" + std::to_string(c.draw(9));
  return m;
}
static void sums(Case& c) {
  size_t n = c.range(1, 6);
  unsigned ok = c.pick({2u, 7u, 9u});
  M sum;
  bool locked = c.flip(), conflict = false;
  TransferStats s(locked);
  same(c, s, sum, "fresh statistics");
  for (size_t i = 0; i < n; i++) {
    M m = genStats(c, ok, 7, 1234);
    c.note([&] { return show(m); });
    TransferStats t = mk(c, m, c.flip());
    same(c, t, m, "one statistics " + show(m));
    s += t;
    M before = sum;
    add(sum, m, conflict);
    same(c, s, sum, "sum of " + show(before) + " and " + show(m));
    same(c, t, m, "statistics added to a sum " + show(m));
    if (conflict) PBT_CHECK(c, s.getErrorCode() != OK && s.getLocalErrorCode() != OK, "conflicting announcements sum to success: " << show(sum));
  }
  c.label(conflict ? "conflicting announcements" : "no conflict");
  std::ostringstream o;
  o << s;
  PBT_CHECK(c, (o.str().find("status = OK") != std::string::npos) == (sum.code() == OK), "printed: " << o.str() << " for " << show(sum));
  if (sum.code() != OK) PBT_CHECK(c, o.str().find(errorCodeToStr(sum.code())) != std::string::npos, "printed: " << o.str() << " for " << show(sum));
  if (n > 1) c.nontrivial();
  if (c.chance(1, 4)) {
    s.reset();
    M e;
    PBT_EQ(c, s.getTotalBytes() + s.getEffectiveTotalBytes() + s.getNumFiles() + s.getNumBlocks() + s.getFailedAttempts(), (int64_t)0, "reset statistics");
    PBT_EQ(c, errorCodeToStr(s.getErrorCode()), errorCodeToStr(OK), "reset statistics");
  }
}
static void interesting(Case& c) {
  ErrorCode a = (ErrorCode)c.draw(kCodes - 1), b = (ErrorCode)c.draw(kCodes - 1), d = (ErrorCode)c.draw(kCodes - 1);
  auto f = getMoreInterestingError;
  c.note([&] { return errorCodeToStr(a) + " " + errorCodeToStr(b) + " " + errorCodeToStr(d); });
  if (a != b) c.nontrivial();
  PBT_CHECK(c, f(a, b) == f(b, a), errorCodeToStr(a) << " and " << errorCodeToStr(b));
  PBT_CHECK(c, f(a, b) == a || f(a, b) == b, errorCodeToStr(a) << " and " << errorCodeToStr(b));
  PBT_CHECK(c, f(a, OK) == a && f(OK, a) == a && f(a, a) == a, errorCodeToStr(a));
  PBT_CHECK(c, f(f(a, b), d) == f(a, f(b, d)), "not associative");
  PBT_CHECK(c, (errorCodeToStr(a) == errorCodeToStr(b)) == (a == b), "names of codes");
  PBT_CHECK(c, (f(a, b) == OK) == (a == OK && b == OK), "an error is lost");
}
// ---- sender report ----
static void senderReport(Case& c) {
  size_t nt = c.range(1, 5);
  unsigned ok = c.pick({3u, 8u, 10u});
  std::vector<TransferStats> transferred, failed, threads;
  std::vector<M> tm, fm;
  std::vector<std::string> dirs;
  M sum;
  bool conflict = false;
  for (size_t i = 0; i < nt; i++) {
    M m = genStats(c, ok, -1, -1);
    m.sent = m.senderBytes = -1;
    if (m.code() == OK || c.flip()) m.remote = m.local;
    tm.push_back(m);
    add(sum, m, conflict);
    threads.push_back(mk(c, m, true));
  }
  size_t nf = c.chance(2, 3) ? 0 : c.range(1, 14);
  std::set<std::string> ids;
  for (size_t i = 0; i < nf; i++) {
    M m;
    m.id = "file" + std::to_string(c.draw(15));
    m.local = genCode(c, 1);
    m.remote = genCode(c, 5);
    ids.insert(m.id);
    fm.push_back(m);
    failed.push_back(mk(c, m, false));
  }
  size_t nd = c.chance(3, 4) ? 0 : c.range(1, 13);
  for (size_t i = 0; i < nd; i++) dirs.push_back("dir" + std::to_string(i));
  size_t ntr = c.range(0, 3);
  for (size_t i = 0; i < ntr; i++) transferred.push_back(mk(c, genStats(c, 10, -1, -1), false));
  int64_t total = c.chance(3, 4) ? sum.effData : sum.effData + (c.flip() ? 1 : -1) * c.logRange(1, 100000);
  if (total < 0) total = sum.effData + 1;
  int64_t discovered = (int64_t)ids.size() + c.range(0, 20), previously = c.logRange(0, 100000);
  double time = (double)c.range(1, 1000) / 10;
  bool finished = c.flip();
  c.note([&] { std::ostringstream o; for (auto& m : tm) o << "thread " << show(m) << "\n"; for (auto& m : fm) o << "failed " << show(m) << "\n"; o << nd << " failed directories, total size " << total << " effectively sent " << sum.effData; return o.str(); });
  TransferReport r(transferred, failed, threads, dirs, time, total, discovered, previously, finished);
  std::ostringstream ctx;
  ctx << "threads " << nt << " failed sources " << nf << " failed directories " << nd << " total " << total << " sent " << sum.effData << " thread codes";
  bool oneOk = false, allOk = true;
  ErrorCode worst = OK;
  for (auto& m : tm) {
    ctx << " " << errorCodeToStr(m.code());
    oneOk |= m.code() == OK;
    allOk &= m.code() == OK;
    worst = std::max(worst, m.code());
  }
  ErrorCode got = r.getSummary().getErrorCode();
  ErrorCode failedWorst = OK;
  for (auto& m : fm) failedWorst = std::max(failedWorst, m.code());
  bool noFail = nd == 0 && failedWorst == OK;
  bool sourceFailed = nf > 0;
  bool mustFail = total != sum.effData || nd > 0 || failedWorst != OK || !oneOk;
  // A failed source whose own code is OK is not a failure by itself, but there
  // the recovered error of a thread must stay.
  bool success = total == sum.effData && nd == 0 && failedWorst == OK && (allOk || (oneOk && !sourceFailed));
  PBT_CHECK(c, !(mustFail && got == OK), "success is declared: " << ctx.str());
  PBT_EQ(c, got == OK, success, ctx.str() << " got " << errorCodeToStr(got));
  if (!success) {
    // the most significant error is the one reported
    ErrorCode want = worst;
    if (nd > 0) want = std::max(want, BYTE_SOURCE_READ_ERROR);
    want = std::max(want, failedWorst);
    if (want == OK) want = ERROR;
    PBT_EQ(c, errorCodeToStr(got), errorCodeToStr(want), ctx.str());
  }
  PBT_EQ(c, errorCodeToStr(r.getSummary().getLocalErrorCode()), errorCodeToStr(got), ctx.str());
  PBT_EQ(c, errorCodeToStr(r.getSummary().getRemoteErrorCode()), errorCodeToStr(got), ctx.str());
  M want = sum;
  want.local = want.remote = got;
  want.files = discovered - (int64_t)ids.size();
  same(c, r.getSummary(), want, "summary of the report, " + ctx.str());
  PBT_EQ(c, r.getThreadStats().size(), nt, "thread statistics kept");
  for (size_t i = 0; i < nt; i++) same(c, r.getThreadStats()[i], tm[i], "kept thread statistics");
  PBT_EQ(c, r.getFailedSourceStats().size(), nf, "failed sources kept");
  for (size_t i = 0; i < nf; i++) PBT_EQ(c, r.getFailedSourceStats()[i].getId(), fm[i].id, "failed source kept");
  PBT_EQ(c, r.getTransferredSourceStats().size(), ntr, "transferred sources kept");
  PBT_EQ(c, r.getFailedDirectories().size(), nd, "failed directories kept");
  PBT_EQ(c, r.getTotalFileSize(), total, "");
  PBT_EQ(c, r.getNumDiscoveredFiles(), discovered, "");
  PBT_EQ(c, r.getPreviouslySentBytes(), previously, "");
  PBT_EQ(c, r.fileDiscoveryFinished(), finished, "");
  PBT_EQ(c, r.getTotalTime(), time, "");
  double tput = (double)(sum.effData + sum.effHeader) / time / 1048576.0;
  PBT_CHECK(c, std::abs(r.getThroughputMBps() - tput) <= 1e-9 * std::max(1.0, tput), "throughput " << r.getThroughputMBps() << " instead of " << tput);
  std::ostringstream o;
  o << r;
  PBT_CHECK(c, (o.str().find("status = OK") != std::string::npos) == success, "printed: " << o.str());
  if (!success) PBT_CHECK(c, o.str().find(errorCodeToStr(got)) != std::string::npos, "the printed report does not name the error: " << o.str());
  if (want.files != 0) {
    size_t n = 0;
    for (auto& i : ids) n += o.str().find(i + "\n") != std::string::npos;
    PBT_EQ(c, n, std::min<size_t>(10, ids.size()), "failed files printed: " << o.str());
  }
  c.label(success ? allOk ? "clean" : "recovered" : "failure");
  if (nt > 1) c.nontrivial();
}
// ---- receiver report ----
static void receiverReport(Case& c) {
  size_t nt = c.range(1, 5);
  unsigned ok = c.pick({3u, 8u, 10u});
  M sum;
  TransferStats s(true);
  std::vector<M> ms;
  bool conflict = false;
  for (size_t i = 0; i < nt; i++) {
    M m = genStats(c, ok, -1, -1);
    m.sent = m.senderBytes = -1;
    if (c.chance(3, 4)) m.remote = OK;
    ms.push_back(m);
  }
  int64_t blocks = 0, bytes = 0;
  for (auto& m : ms) blocks += m.blocks, bytes += m.effData;
  bool known = c.chance(5, 6), bytesKnown = c.chance(2, 3);
  int64_t annBlocks = c.chance(3, 4) ? blocks : blocks + (c.flip() ? 1 : -1) * c.range(1, 3), annBytes = c.chance(3, 4) ? bytes : bytes + (c.flip() ? 1 : -1) * c.logRange(1, 100);
  if (annBlocks < 0) annBlocks = blocks + 1;
  if (annBytes < 0) annBytes = bytes + 1;
  bool any = false;
  for (auto& m : ms)
    if (known && c.flip()) {
      m.sent = annBlocks;
      if (bytesKnown) m.senderBytes = annBytes;
      any = true;
    }
  for (auto& m : ms) {
    TransferStats t = mk(c, m, true);
    s += t;
    add(sum, m, conflict);
    c.note([&] { return show(m); });
  }
  if (!any) annBlocks = annBytes = -1;
  if (!any || !bytesKnown) annBytes = -1;
  ErrorCode before = s.getLocalErrorCode();
  TransferReport r(std::move(s));
  bool complete = annBlocks != -1 && annBlocks == blocks && (annBytes == -1 || annBytes == bytes);
  bool success = complete && before != ENCRYPTION_ERROR && sum.remote == OK;
  std::ostringstream ctx;
  ctx << "announced " << annBlocks << " blocks " << annBytes << " bytes, received " << blocks << " blocks " << bytes << " bytes, local " << errorCodeToStr(before) << " remote " << errorCodeToStr(sum.remote);
  ErrorCode got = r.getSummary().getErrorCode();
  PBT_EQ(c, got == OK, success, ctx.str() << ", report says " << errorCodeToStr(got));
  ErrorCode wantLocal = complete ? (before == ENCRYPTION_ERROR ? ENCRYPTION_ERROR : OK) : std::max(before, ERROR);
  PBT_EQ(c, errorCodeToStr(r.getSummary().getLocalErrorCode()), errorCodeToStr(wantLocal), ctx.str());
  M want = sum;
  want.local = wantLocal;
  same(c, r.getSummary(), want, "summary of the receiver report, " + ctx.str());
  c.label(success ? before == OK ? "clean" : "recovered" : complete ? "complete but failed" : "incomplete");
  if (nt > 1) c.nontrivial();
}
// ---- progress reports ----
static void progressReport(Case& c) {
  size_t nt = c.range(1, 4);
  std::vector<TransferStats> threads;
  M sum;
  bool conflict = false;
  for (size_t i = 0; i < nt; i++) {
    M m = genStats(c, 8, 5, 500);
    add(sum, m, conflict);
    threads.push_back(mk(c, m, true));
  }
  TransferReport r(threads, 2.0, 1000, 17, true);
  same(c, r.getSummary(), sum, "summary of a progress report");
  PBT_EQ(c, threads.size(), nt, "thread statistics are kept by the caller");
  PBT_EQ(c, r.getNumDiscoveredFiles(), (int64_t)17, "");
  M extra = genStats(c, 8, 5, 500);
  TransferStats t = mk(c, extra, false);
  r.addTransferStats(t);
  add(sum, extra, conflict);
  same(c, r.getSummary(), sum, "summary after one more");
  r.setErrorCode(PROTOCOL_ERROR);
  PBT_EQ(c, errorCodeToStr(r.getSummary().getErrorCode()), errorCodeToStr(PROTOCOL_ERROR), "");
  if (nt > 1) c.nontrivial();
}
// concurrent updates of locked statistics are all counted
static void concurrentStats(Case& c) {
  size_t n = c.range(2, 6), k = c.range(1, 400);
  TransferStats shared(true);
  std::vector<std::thread> ts;
  for (size_t i = 0; i < n; i++)
    ts.emplace_back([&] {
      for (size_t j = 0; j < k; j++) {
        shared.addDataBytes(3);
        shared.addHeaderBytes(1);
        shared.incrNumBlocks();
        shared.addEffectiveBytes(2, 5);
        if (j % 8 == 0) {
          TransferStats one(false);
          one.addDataBytes(7);
          one.incrFailedAttempts();
          shared += one;
        }
        (void)shared.getEffectiveTotalBytes();
      }
    });
  for (auto& t : ts) t.join();
  int64_t ops = (int64_t)(n * k), adds = (int64_t)(n * ((k + 7) / 8));
  PBT_EQ(c, shared.getDataBytes(), ops * 3 + adds * 7, n << " threads " << k << " rounds");
  PBT_EQ(c, shared.getHeaderBytes(), ops, "");
  PBT_EQ(c, shared.getNumBlocks(), ops, "");
  PBT_EQ(c, shared.getEffectiveTotalBytes(), ops * 7, "");
  PBT_EQ(c, shared.getFailedAttempts(), adds, "");
  c.nontrivial();
}
int main(int argc, char** argv) {
  return pbt::main(argc, argv, "C24",
                   {{"sums", sums, 20000, 400000, 30, false, "at least two statistics summed"},
                    {"significance", interesting, 5000, 20000, 30, false, "different codes"},
                    {"sender_report", senderReport, 20000, 400000, 30, false, "report over several threads"},
                    {"receiver_report", receiverReport, 20000, 400000, 30, false, "report over several threads"},
                    {"progress_report", progressReport, 3000, 30000, 30, false, "several threads"},
                    {"concurrent", concurrentStats, 100, 1500, 60, true, "updates from several threads"}});
}
