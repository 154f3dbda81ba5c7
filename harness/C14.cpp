// variant: asan
// libs: core
// extra: common_proc.cpp
// wrap: write fsync ftruncate posix_fallocate close
// C14: blocks written in any order or concurrency reproduce exactly the file.
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <wdt/util/FileCreator.h>
#include <wdt/util/FileWriter.h>
#include <atomic>
#include <thread>
#include "common_proc.h"
#include "common_tree.h"
#include "pbt.h"
using namespace facebook::wdt;
using pbt::Case;
// ---- system calls which can be made to misbehave while `fp` is set (per thread) ----
struct FaultPlan {
  std::vector<int> writes;  // what the next write() calls do: 0 normal, n>0 at most n bytes, -1 EINTR, -2 ENOSPC, -3 EIO after half of it
  size_t w{0};
  int fsyncErr{0}, truncErr{0}, allocErr{0}, closeErr{0};
  bool hard{false};    // a fault which must be reported happened
  bool soft{false};    // short or interrupted write happened
};
static thread_local FaultPlan* fp = nullptr;
extern "C" {
ssize_t __real_write(int, const void*, size_t);
int __real_fsync(int);
int __real_ftruncate(int, off_t);
int __real_posix_fallocate(int, off_t, off_t);
int __real_close(int);
ssize_t __wrap_write(int fd, const void* b, size_t n) {
  if (!fp || fd <= 2 || fp->w >= fp->writes.size()) return __real_write(fd, b, n);
  int k = fp->writes[fp->w++];
  if (k == -1) { fp->soft = true; errno = EINTR; return -1; }
  if (k == -2) { fp->hard = true; errno = ENOSPC; return -1; }
  if (k == -3) { if (n > 1) { fp->soft = true; return __real_write(fd, b, n / 2); } fp->hard = true; errno = EIO; return -1; }
  if (k > 0 && (size_t)k < n) { fp->soft = true; return __real_write(fd, b, k); }
  return __real_write(fd, b, n);
}
int __wrap_fsync(int fd) {
  if (fp && fp->fsyncErr) { errno = fp->fsyncErr; fp->fsyncErr = 0; fp->hard = true; return -1; }
  return __real_fsync(fd);
}
int __wrap_ftruncate(int fd, off_t n) {
  if (fp && fp->truncErr) { errno = fp->truncErr; fp->truncErr = 0; fp->hard = true; return -1; }
  return __real_ftruncate(fd, n);
}
int __wrap_posix_fallocate(int fd, off_t o, off_t n) {
  if (fp && fp->allocErr) { int e = fp->allocErr; fp->allocErr = 0; fp->hard = true; return e; }
  return __real_posix_fallocate(fd, o, n);
}
int __wrap_close(int fd) {
  if (fp && fp->closeErr && fd > 2) { __real_close(fd); errno = fp->closeErr; fp->closeErr = 0; fp->hard = true; return -1; }
  return __real_close(fd);
}
}
namespace {
struct NoAbort : IAbortChecker { bool shouldAbort() const override { return false; } } noAbort;
using Tree = std::map<std::string, std::string>;
int openFds() {
  int n = 0;
  for (int i = 0; i < 256; i++)
    if (fcntl(i, F_GETFD) != -1) n++;
  return n;
}
void mkdirs(const std::string& root, const std::string& rel) {
  for (size_t i = 0; i < rel.size(); i++)
    if (rel[i] == '/') mkdir((root + "/" + rel.substr(0, i)).c_str(), 0755);
}
void putFile(const std::string& root, const std::string& rel, const std::string& d) {
  mkdirs(root, rel);
  writeAll(root + "/" + rel, d);
}
Tree snap(const std::string& root) {
  Tree t;
  snapshot(root, "", t, true);
  return t;
}
void modelPut(Tree& t, const std::string& rel, const std::string& d) {
  for (size_t i = 0; i < rel.size(); i++)
    if (rel[i] == '/') t[rel.substr(0, i + 1)] = "<dir>";
  t[rel] = "f" + d;
}
// false if some parent is a file or the name is a directory
bool possible(const Tree& t, const std::string& rel) {
  for (size_t i = 0; i < rel.size(); i++)
    if (rel[i] == '/' && t.count(rel.substr(0, i))) return false;
  return !t.count(rel + "/");
}
std::string diff(const Tree& want, const Tree& got) {
  std::ostringstream o;
  for (auto& p : want) {
    auto it = got.find(p.first);
    if (it == got.end()) o << " missing " << p.first;
    else if (it->second != p.second) {
      o << " " << p.first << " differs (" << p.second.size() - 1 << " bytes expected, " << it->second.size() - 1 << " there";
      size_t i = 0;
      while (i < p.second.size() && i < it->second.size() && p.second[i] == it->second[i]) i++;
      o << ", first difference at " << (int64_t)i - 1 << ")";
    }
  }
  for (auto& p : got)
    if (!want.count(p.first)) o << " unexpected " << p.first << (p.second == "<dir>" ? "" : " of " + std::to_string(p.second.size() - 1));
  return o.str();
}
std::string genRel(Case& c) {
  std::string r;
  int depth = (int)c.weighted({4, 3, 2, 1});
  for (int i = 0; i < depth; i++) r += c.pick<std::string>({"d", "e", "dd", "a", "x y", "d.d"}) + "/";
  return r + c.pick<std::string>({"f", "g", "ff", "a", "d", ".h", "f.1", "long name"});
}
struct Piece { int file; int64_t off, len; };
struct F {
  std::string rel, data, before;
  bool existed{false}, refused{false};
  int64_t seq{0}, prevSeq{0};
  FileAllocationStatus st{NOT_EXISTS};
  std::vector<std::pair<int64_t, int64_t>> todo;
};
// splits [0,size) in blocks
std::vector<std::pair<int64_t, int64_t>> partition(Case& c, int64_t from, int64_t to) {
  std::vector<std::pair<int64_t, int64_t>> v;
  int k = (int)c.logRange(1, 8);
  while (from < to && k-- > 1) {
    int64_t n = c.range(1, to - from);
    v.push_back({from, n});
    from += n;
  }
  if (from < to) v.push_back({from, to - from});
  return v;
}
void genOptions(Case& c, WdtOptions& o) {
  o.overwrite = c.flip();
  o.disable_preallocation = c.flip();
  o.fsync = c.chance(1, 8);
  o.skip_fadvise = c.flip();
  o.disk_sync_interval_mb = c.pick({0.5, -1.0, 0.0, 0.001, 0.01});
  o.close_on_exec = c.flip();
}
std::string optStr(const WdtOptions& o) {
  std::ostringstream s;
  s << "overwrite=" << o.overwrite << " prealloc=" << !o.disable_preallocation << " resume=" << o.enable_download_resumption << (o.resume_using_dir_tree ? "(tree)" : "") << " fsync=" << o.fsync << " skip_fadvise=" << o.skip_fadvise << " sync_mb=" << o.disk_sync_interval_mb;
  return s.str();
}
BlockDetails block(const F& f, int64_t off, int64_t len) {
  BlockDetails b;
  b.fileName = f.rel;
  b.seqId = f.seq;
  b.prevSeqId = f.prevSeq;
  b.fileSize = f.data.size();
  b.offset = off;
  b.dataSize = len;
  b.allocationStatus = f.st;
  return b;
}
// one block written the way the receiver does it; returns the first error
ErrorCode writeBlock(ThreadCtx& ctx, FileCreator& fc, const BlockDetails& b, const std::string& data, pbt::Rng& r, int maxPieces, std::string& bad) {
  FileWriter w(ctx, &b, &fc);
  ErrorCode e = w.open();
  if (e != OK) return e;
  int64_t done = 0;
  while (done < b.dataSize) {
    int64_t n = --maxPieces > 0 ? 1 + (int64_t)r.below(b.dataSize - done) : b.dataSize - done;
    std::string piece = data.substr(b.offset + done, n);  // its own buffer, so that over-reads are seen
    std::vector<char> buf(piece.begin(), piece.end());
    e = w.write(buf.data(), n);
    if (e != OK) return e;
    done += n;
    if (w.getTotalWritten() != done) bad = "getTotalWritten " + std::to_string(w.getTotalWritten()) + " after " + std::to_string(done);
    if (r.below(4) == 0) std::this_thread::yield();
  }
  e = w.sync();
  ErrorCode e2 = w.close();
  return e != OK ? e : e2;
}
void blocks(Case& c) {
  std::string base = c.scratch(), root = base + "/dst";
  mkdir(root.c_str(), 0755);
  WdtOptions o;
  genOptions(c, o);
  int mode = (int)c.draw(2);  // plain, log, tree
  o.enable_download_resumption = mode > 0;
  o.resume_using_dir_tree = mode == 2;
  if (mode == 2) o.disable_preallocation = true;
  Tree want;
  writeAll(base + "/outside", "o");
  int nf = (int)c.range(1, 5);
  std::vector<F> fs;
  std::vector<int64_t> seqs;
  for (int i = 0; i < 10; i++) seqs.push_back(i < 5 ? i : c.logRange(5, int64_t{1} << 40) * 8 + i);
  c.shuffle(seqs);
  for (int i = 0; i < nf; i++) {
    F f;
    f.rel = genRel(c);
    bool dup = false;
    for (auto& g : fs) dup |= g.rel == f.rel || g.rel.compare(0, f.rel.size() + 1, f.rel + "/") == 0 || f.rel.compare(0, g.rel.size() + 1, g.rel + "/") == 0;
    if (dup) continue;
    f.data = c.blob(c.chance(1, 8) ? 0 : c.logRange(1, c.chance(1, 5) ? 300000 : 5000));
    int64_t size = f.data.size();
    f.seq = seqs[i];
    f.prevSeq = seqs[9 - i];
    switch (c.draw(4)) {
      case 0: break;  // not there
      case 1: f.existed = true; f.before = c.blob(c.range(0, size)); break;
      case 2: f.existed = true; f.before = c.blob(size); break;
      case 3: f.existed = true; f.before = c.blob(size + c.logRange(1, 100000)); break;
      case 4: break;
    }
    f.todo = partition(c, 0, size);
    if (f.existed) {
      if (mode && c.chance(3, 4)) {
        // the sender knows what is there
        if ((int64_t)f.before.size() > size) {
          f.st = EXISTS_TOO_LARGE;
        } else {
          f.st = (int64_t)f.before.size() < size ? EXISTS_TOO_SMALL : EXISTS_CORRECT_SIZE;
          // some blocks within the present part are there already
          std::vector<std::pair<int64_t, int64_t>> todo;
          for (auto& b : f.todo) {
            if (b.first + b.second <= (int64_t)f.before.size() && c.flip()) f.before.replace(b.first, b.second, f.data, b.first, b.second);
            else todo.push_back(b);
          }
          f.todo = todo;
          if (todo.empty()) continue;
        }
      } else {
        f.refused = mode == 0 && !o.overwrite;
      }
    }
    if (f.existed) {
      putFile(root, f.rel, f.before);
      modelPut(want, f.rel, f.before);
    }
    if (f.todo.empty()) f.todo.push_back({0, 0});
    fs.push_back(f);
  }
  // files nobody writes
  for (int i = 0, n = (int)c.range(0, 3); i < n; i++) {
    std::string rel = fs.empty() || c.flip() ? genRel(c) : fs[c.draw(fs.size() - 1)].rel + c.pick<std::string>({"1", ".bak", "~"});
    bool clash = want.count(rel) || !possible(want, rel);
    for (auto& g : fs) clash |= g.rel == rel || g.rel.compare(0, rel.size() + 1, rel + "/") == 0 || rel.compare(0, g.rel.size() + 1, g.rel + "/") == 0;
    if (clash) continue;
    std::string d = c.blob(c.logRange(0, 300));
    putFile(root, rel, d);
    modelPut(want, rel, d);
  }
  // files marked for deletion
  std::vector<std::string> dels;
  if (mode)
    for (int i = 0, n = (int)c.range(0, 2); i < n; i++) {
      std::string rel = genRel(c) + ".del";
      bool clash = !possible(want, rel);
      for (auto& g : fs) clash |= rel.compare(0, g.rel.size() + 1, g.rel + "/") == 0;
      if (clash) continue;
      if (!want.count(rel) && c.chance(3, 4)) {
        putFile(root, rel, "delete me");
        modelPut(want, rel, "");
      }
      dels.push_back(rel);
    }
  if (fs.empty()) c.discard();
  int nt = (int)c.range(1, 6);
  struct Job { int f; int64_t off, len; };
  std::vector<Job> jobs;
  for (size_t i = 0; i < fs.size(); i++)
    for (auto& b : fs[i].todo) jobs.push_back({(int)i, b.first, b.second});
  for (size_t i = 0; i < dels.size(); i++) jobs.push_back({-1 - (int)i, 0, 0});
  c.shuffle(jobs);
  std::vector<std::vector<Job>> plan(nt);
  for (auto& j : jobs) plan[c.draw(nt - 1)].push_back(j);
  c.note([&] {
    std::ostringstream s;
    s << optStr(o) << " threads " << nt;
    for (auto& f : fs) s << "\n  " << f.rel << " size " << f.data.size() << " status " << f.st << (f.existed ? " existing " + std::to_string(f.before.size()) : "") << (f.refused ? " must be refused" : "") << " blocks " << f.todo.size();
    for (auto& d : dels) s << "\n  delete " << d;
    for (int t = 0; t < nt; t++) {
      s << "\n  thread " << t << ":";
      for (auto& j : plan[t]) s << " " << j.f << "@" << j.off << "+" << j.len;
    }
    return s.str();
  });
  int before = openFds();
  struct Out { Job j; ErrorCode e; std::string bad; };
  std::vector<std::vector<Out>> outs(nt);
  bool trailing = c.flip();
  uint64_t sd = c.draw(~0ULL);
  int maxPieces = (int)c.logRange(1, 30);
  {
    TransferLogManager tlm(o, root);
    FileCreator fc(trailing ? root + "/" : root, nt, tlm, false);
    std::vector<std::unique_ptr<ThreadCtx>> ctx;
    for (int t = 0; t < nt; t++) {
      ctx.emplace_back(new ThreadCtx(o, false, t));
      ctx.back()->setAbortChecker(&noAbort);
    }
    std::atomic<int> ready{0};
    auto run = [&](int t) {
      pbt::Rng r(sd + t);
      ready++;
      while (ready < nt) {}
      for (auto& j : plan[t]) {
        Out out{j, OK, ""};
        if (j.f < 0) {
          BlockDetails b;
          b.fileName = dels[-1 - j.f];
          b.seqId = 1000 - j.f;
          b.allocationStatus = TO_BE_DELETED;
          out.e = writeBlock(*ctx[t], fc, b, "", r, 1, out.bad);
        } else {
          BlockDetails b = block(fs[j.f], j.off, j.len);
          out.e = writeBlock(*ctx[t], fc, b, fs[j.f].data, r, maxPieces, out.bad);
        }
        outs[t].push_back(out);
      }
    };
    std::vector<std::thread> th;
    for (int t = 0; t < nt; t++) th.emplace_back(run, t);
    for (auto& x : th) x.join();
    fc.clearAllocationMap();
  }
  PBT_EQ(c, openFds(), before, "descriptors left open");
  for (auto& v : outs)
    for (auto& x : v) {
      std::string nm = x.j.f < 0 ? dels[-1 - x.j.f] : fs[x.j.f].rel;
      PBT_CHECK(c, x.bad.empty(), nm << ": " << x.bad);
      if (x.j.f >= 0 && fs[x.j.f].refused) PBT_CHECK(c, x.e != OK, nm << " exists, overwriting is off, block at " << x.j.off << " accepted");
      else PBT_EQ(c, x.e, OK, "writing " << nm << " at " << x.j.off);
    }
  for (auto& f : fs)
    if (!f.refused) modelPut(want, f.rel, f.data);
  for (auto& d : dels) want.erase(d);
  Tree got = snap(root);
  PBT_CHECK(c, want == got, diff(want, got));
  Tree wb{{"dst/", "<dir>"}, {"outside", "fo"}}, gb;
  snapshot(base, "", gb, false);
  for (auto it = gb.begin(); it != gb.end();) it = it->first.compare(0, 4, "dst/") == 0 && it->first.size() > 4 ? gb.erase(it) : std::next(it);
  PBT_CHECK(c, gb.size() == 2 && gb.count("outside") && gb.count("dst/"), "something changed outside the destination: " << gb.size());
  if (jobs.size() > 1 && nt > 1) c.nontrivial();
  for (auto& f : fs) {
    if (f.st == EXISTS_TOO_LARGE) c.label("too large");
    if (f.st == EXISTS_TOO_SMALL) c.label("too small");
    if (f.st == EXISTS_CORRECT_SIZE) c.label("partly there");
    if (f.refused) c.label("refused");
    if (f.todo.size() > 1 && nt > 1) c.label("shared file");
    if (f.existed && f.st == NOT_EXISTS && !f.refused) c.label("overwritten");
  }
}
// a sequence of sessions, one thread at a time, directories disappearing in between
void history(Case& c) {
  std::string base = c.scratch(), root = base + (c.flip() ? "/dst" : "/p/q/dst");
  WdtOptions o;
  genOptions(c, o);
  TransferLogManager tlm(o, root);
  int nt = (int)c.range(1, 3);
  FileCreator fc(root, nt, tlm, false);
  std::vector<std::unique_ptr<ThreadCtx>> ctx;
  for (int t = 0; t < nt; t++) {
    ctx.emplace_back(new ThreadCtx(o, false, t));
    ctx.back()->setAbortChecker(&noAbort);
  }
  struct stat st;
  PBT_CHECK(c, stat(root.c_str(), &st) == 0 && S_ISDIR(st.st_mode), "the destination directory was not created");
  Tree want;
  int64_t seq = 0;
  struct Act { F f; std::vector<std::pair<int64_t, int64_t>> left; bool ok; };
  std::vector<Act> active;  // files of the current session
  int before = openFds();
  int steps = (int)c.range(1, 25), wrote = 0, failed = 0, removed = 0;
  auto check = [&](const char* what) {
    Tree got = snap(root);
    PBT_CHECK(c, want == got, what << ":" << diff(want, got));
  };
  for (int i = 0; i < steps; i++) {
    switch (c.weighted({6, 6, 2, 2, 1, 1})) {
      case 0: {  // new file in this session
        Act a;
        a.f.rel = genRel(c);
        bool dup = false;
        for (auto& x : active) dup |= x.f.rel == a.f.rel;
        if (dup) break;
        a.f.data = c.blob(c.logRange(0, 3000));
        a.f.seq = seq++;
        a.left = partition(c, 0, a.f.data.size());
        if (a.left.empty()) a.left.push_back({0, 0});
        c.shuffle(a.left);
        a.ok = true;
        bool exists = want.count(a.f.rel);
        // the first block
        auto b = a.left.back();
        a.left.pop_back();
        int t = (int)c.draw(nt - 1);
        c.note([&] { return "new " + a.f.rel + " seq " + std::to_string(a.f.seq) + " size " + std::to_string(a.f.data.size()) + " block " + std::to_string(b.first) + "+" + std::to_string(b.second) + (exists ? " (exists)" : "") + " thread " + std::to_string(t); });
        BlockDetails bd = block(a.f, b.first, b.second);
        std::string bad;
        pbt::Rng r(7);
        bool can = possible(want, a.f.rel) && (!exists || o.overwrite);
        ErrorCode e = writeBlock(*ctx[t], fc, bd, a.f.data, r, 3, bad);
        PBT_CHECK(c, bad.empty(), bad);
        if (!can) {
          PBT_CHECK(c, e != OK, a.f.rel << " cannot be created but was accepted");
          a.ok = false;
          failed++;
          // parents may have been made
          for (size_t k = 0; k < a.f.rel.size(); k++)
            if (a.f.rel[k] == '/' && stat((root + "/" + a.f.rel.substr(0, k)).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) want[a.f.rel.substr(0, k + 1)] = "<dir>";
        } else {
          PBT_EQ(c, e, OK, "creating " << a.f.rel);
          std::string now(o.disable_preallocation ? b.first + b.second : (int64_t)a.f.data.size(), '\0');
          now.replace(b.first, b.second, a.f.data, b.first, b.second);
          // an empty block at the end of a file that is not preallocated does not make it longer
          modelPut(want, a.f.rel, now);
          wrote++;
        }
        active.push_back(a);
        break;
      }
      case 1: {  // next block of a file
        if (active.empty()) break;
        Act& a = active[c.draw(active.size() - 1)];
        if (a.left.empty()) break;
        auto b = a.left.back();
        a.left.pop_back();
        int t = (int)c.draw(nt - 1);
        c.note([&] { return "block of " + a.f.rel + " " + std::to_string(b.first) + "+" + std::to_string(b.second) + " thread " + std::to_string(t); });
        std::string bad;
        pbt::Rng r(9);
        BlockDetails bd = block(a.f, b.first, b.second);
        ErrorCode e = writeBlock(*ctx[t], fc, bd, a.f.data, r, 3, bad);
        PBT_CHECK(c, bad.empty(), bad);
        if (!a.ok) {
          PBT_CHECK(c, e != OK, "block of " << a.f.rel << " accepted although the file could not be created");
          failed++;
          break;
        }
        auto it = want.find(a.f.rel);
        if (it == want.end()) {  // removed under us
          PBT_CHECK(c, e != OK, "block of the removed file " << a.f.rel << " accepted");
          a.ok = false;
          break;
        }
        PBT_EQ(c, e, OK, "writing " << a.f.rel);
        if ((int64_t)it->second.size() - 1 < b.first + b.second) it->second.resize(1 + b.first + b.second, '\0');
        it->second.replace(1 + b.first, b.second, a.f.data, b.first, b.second);
        wrote++;
        break;
      }
      case 2: {  // a file to be deleted
        std::string rel = genRel(c);
        c.note([&] { return "delete " + rel; });
        BlockDetails b;
        b.fileName = rel;
        b.seqId = seq++;
        b.allocationStatus = TO_BE_DELETED;
        std::string bad;
        pbt::Rng r(1);
        PBT_EQ(c, writeBlock(*ctx[0], fc, b, "", r, 1, bad), OK, "deleting " << rel);
        want.erase(rel);
        break;
      }
      case 3:  // next session
        c.note([&] { return "session ends"; });
        fc.clearAllocationMap();
        if (c.flip()) fc.resetDirCache();
        active.clear();
        break;
      case 4: {  // somebody removes a directory
        std::vector<std::string> ds;
        for (auto& p : want) if (p.second == "<dir>") ds.push_back(p.first);
        if (ds.empty()) break;
        std::string d = c.pick(ds);
        c.note([&] { return "directory removed " + d; });
        rmTree(root + "/" + d.substr(0, d.size() - 1));
        for (auto it = want.begin(); it != want.end();) it = it->first.compare(0, d.size(), d) == 0 ? want.erase(it) : std::next(it);
        removed++;
        break;
      }
      default: {  // somebody puts a file
        std::string rel = genRel(c);
        if (!possible(want, rel)) break;
        c.note([&] { return "file appears " + rel; });
        std::string d = c.blob(c.logRange(0, 100));
        bool act = false;
        for (auto& x : active) act |= x.f.rel == rel;
        if (act) break;
        putFile(root, rel, d);
        modelPut(want, rel, d);
      }
    }
    check("after a step");
  }
  PBT_EQ(c, openFds(), before, "descriptors left open");
  if (wrote >= 2) c.nontrivial();
  if (failed) c.label("failures");
  if (removed) c.label("directory removed");
}
// short and interrupted writes are completed; every failing call is reported
void faults(Case& c) {
  std::string base = c.scratch(), root = base + "/dst";
  mkdir(root.c_str(), 0755);
  WdtOptions o;
  genOptions(c, o);
  o.fsync = c.flip();
  int mode = (int)c.draw(2);
  o.enable_download_resumption = mode > 0;
  o.resume_using_dir_tree = mode == 2;
  if (mode == 2) o.disable_preallocation = true;
  o.overwrite = true;
  F f;
  f.rel = genRel(c);
  f.data = c.blob(c.logRange(1, 20000));
  f.existed = c.flip();
  if (f.existed) {
    f.before = c.blob(c.logRange(1, 30000));
    if (f.before.size() > f.data.size() && c.flip()) f.st = EXISTS_TOO_LARGE;
    else if (f.before.size() < f.data.size() && c.flip()) f.st = EXISTS_TOO_SMALL;
    putFile(root, f.rel, f.before);
  }
  FaultPlan plan;
  for (int i = 0, n = (int)c.range(0, 12); i < n; i++) {
    switch (c.weighted({3, 6, 4, 1, 1})) {
      case 0: plan.writes.push_back(0); break;
      case 1: plan.writes.push_back((int)c.logRange(1, 5000)); break;
      case 2: plan.writes.push_back(-1); break;
      case 3: plan.writes.push_back(-2); break;
      default: plan.writes.push_back(-3); break;
    }
  }
  if (c.chance(1, 6)) plan.fsyncErr = c.pick({EIO, ENOSPC});
  if (c.chance(1, 6)) plan.truncErr = EIO;
  if (c.chance(1, 6)) plan.allocErr = ENOSPC;
  if (c.chance(1, 6)) plan.closeErr = c.pick({EIO, EDQUOT});
  c.note([&] {
    std::ostringstream s;
    s << optStr(o) << " " << f.rel << " size " << f.data.size() << " status " << f.st << " existing " << f.before.size() << " fsync " << plan.fsyncErr << " trunc " << plan.truncErr << " alloc " << plan.allocErr << " close " << plan.closeErr << " writes";
    for (int k : plan.writes) s << " " << k;
    return s.str();
  });
  auto parts = partition(c, 0, f.data.size());
  c.shuffle(parts);
  int maxPieces = (int)c.logRange(1, 10);
  uint64_t sd = c.draw(~0ULL);
  int before = openFds();
  bool allOk = true;
  {
    TransferLogManager tlm(o, root);
    FileCreator fc(root, 1, tlm, false);
    ThreadCtx ctx(o, false, 0);
    ctx.setAbortChecker(&noAbort);
    pbt::Rng r(sd);
    for (auto& p : parts) {
      BlockDetails b = block(f, p.first, p.second);
      std::string bad;
      bool hardBefore = plan.hard;
      fp = &plan;
      ErrorCode e = writeBlock(ctx, fc, b, f.data, r, maxPieces, bad);
      fp = nullptr;
      PBT_CHECK(c, bad.empty(), bad);
      bool hardNow = plan.hard && !hardBefore;
      if (hardNow) PBT_CHECK(c, e != OK, "a failing system call during the block at " << p.first << " was not reported");
      else if (allOk) PBT_EQ(c, e, OK, "no call failed, block at " << p.first);
      if (e != OK) allOk = false;
      if (hardNow) plan.hard = false;
      if (e != OK && c.flip()) break;
    }
  }
  PBT_EQ(c, openFds(), before, "descriptors left open");
  if (allOk) {
    std::string now = readAll(root + "/" + f.rel);
    PBT_EQ(c, now.size(), f.data.size(), "size");
    PBT_CHECK(c, now == f.data, "wrong content although everything was reported as written");
  }
  if (plan.soft && allOk) { c.nontrivial(); c.label("short or interrupted writes completed"); }
  if (!allOk) { c.nontrivial(); c.label("failure reported"); }
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::main(argc, argv, "C14",
                   {{"blocks", blocks, 24000, 500000, 60, true, "several blocks spread over at least two threads"},
                    {"history", history, 24000, 400000, 60, false, "at least two blocks written"},
                    {"faults", faults, 40000, 600000, 60, false, "a short, interrupted or failing system call happened"}});
}
