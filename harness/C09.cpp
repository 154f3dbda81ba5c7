// variant: asan
// libs: core
// extra: common_proc.cpp
// C09: directory discovery against an independent walk and pattern matcher.
#include <wdt/util/DirectorySourceQueue.h>
#include <algorithm>
#include <atomic>
#include <thread>
#include "common_proc.h"
#include "common_tree.h"
using namespace facebook::wdt;
using pbt::Case;
namespace {
struct Abort : IAbortChecker {
  mutable std::atomic<int64_t> left{-1};
  bool shouldAbort() const override { return left >= 0 && left.fetch_sub(1) <= 0 ? (left = 0, true) : false; }
};
struct Filters {
  Rx::P inc, exc, prune;
  bool ok(const std::string& p) const { return !(exc && exc->match(p)) && !(inc && !inc->match(p)); }
  bool pruned(const std::string& dir) const { return prune && prune->match(dir); }  // dir ends in '/'
  bool prunedAncestor(const std::string& p) const {
    for (size_t i = p.find('/'); i != std::string::npos; i = p.find('/', i + 1))
      if (pruned(p.substr(0, i + 1))) return true;
    return false;
  }
  std::string show() const {
    auto s = [](const Rx::P& r) { return r ? "/" + pbt::show(r->src()) + "/" : std::string("-"); };
    return "include " + s(inc) + " exclude " + s(exc) + " prune " + s(prune);
  }
};
struct Tree {
  std::string base, root;  // scratch, source directory
  std::vector<std::string> dirs{""}, paths;  // relative: dirs end in '/'
  std::string desc;
  void add(const std::string& what) { desc += what + "\n"; }
};
void mkfile(const std::string& f, int64_t size) {
  int fd = open(f.c_str(), O_CREAT | O_WRONLY, 0644);
  if (fd < 0) return;
  if (size && ftruncate(fd, size)) {}
  close(fd);
}
bool fresh(const std::string& f) {
  struct stat st;
  return lstat(f.c_str(), &st) != 0;
}
void grow(Case& c, Tree& t, int n, int links /*0 none, 1 tame, 2 wild*/) {
  int outN = 0;
  for (int i = 0; i < n; i++) {
    std::string rel = t.dirs[c.chance(1, 3) ? t.dirs.size() - 1 : c.draw(t.dirs.size() - 1)] + genName(c);
    std::string f = t.root + "/" + rel;
    if (!fresh(f)) continue;
    switch (c.weighted({6, 4, 1, links ? 4u : 0u})) {
      case 0: {
        int64_t sz = c.chance(1, 8) ? c.logRange(0, int64_t{1} << 40) : c.logRange(0, 100000);
        mkfile(f, sz);
        t.paths.push_back(rel);
        t.add("file " + pbt::show(rel) + " " + std::to_string(sz));
        break;
      }
      case 1:
        if (mkdir(f.c_str(), 0755)) continue;
        t.dirs.push_back(rel + "/");
        t.paths.push_back(rel + "/");
        t.add("dir  " + pbt::show(rel));
        break;
      case 2:
        if (mkfifo(f.c_str(), 0644)) continue;
        t.add("fifo " + pbt::show(rel));
        break;
      default: {
        std::string to;
        switch (c.draw(links == 2 ? 5 : 4)) {
          case 0: {  // file in the tree
            std::vector<std::string> fs;
            struct stat st;
            for (auto& p : t.paths)
              if (p.back() != '/' && !stat((t.root + "/" + p).c_str(), &st) && S_ISREG(st.st_mode)) fs.push_back(p);
            to = fs.empty() ? "nowhere" : t.root + "/" + fs[c.draw(fs.size() - 1)];
            break;
          }
          case 1:  // file outside
            to = t.base + "/out/f" + std::to_string(outN++);
            mkfile(to, c.logRange(0, 1000));
            break;
          case 2: {  // directory outside, linked once
            to = t.base + "/out/d" + std::to_string(outN++);
            mkdir(to.c_str(), 0755);
            int k = c.range(0, 3);
            for (int j = 0; j < k; j++) {
              std::string x = to + "/" + genName(c);
              if (!fresh(x)) continue;
              if (c.chance(1, 3)) {
                mkdir(x.c_str(), 0755);
                mkfile(x + "/in", j);
                t.paths.push_back(rel + x.substr(to.size()) + "/");
              } else {
                mkfile(x, c.logRange(0, 1000));
                t.paths.push_back(rel + x.substr(to.size()));
              }
            }
            t.paths.push_back(rel + "/");
            break;
          }
          case 3: to = "nowhere/at/all"; break;
          case 4: to = c.flip() ? "." + std::string("/") + rel.substr(rel.rfind('/') + 1) : t.base + "/out/fifo"; break;
          default: {  // any directory of the tree
            std::string d = t.dirs[c.draw(t.dirs.size() - 1)];
            if (c.flip()) {
              to = t.root + "/" + d;
            } else {
              for (size_t q = 0; q < rel.size(); q++) if (rel[q] == '/') to += "../";
              to += d.empty() ? "." : d;
            }
            if (to.size() > 1 && to.back() == '/' && c.flip()) to.pop_back();
          }
        }
        if (symlink(to.c_str(), f.c_str())) continue;
        if (rel.find('/') == std::string::npos || true) t.paths.push_back(rel);
        t.add("link " + pbt::show(rel) + " -> " + pbt::show(to.substr(0, t.base.size()) == t.base ? "<scratch>" + to.substr(t.base.size()) : to));
      }
    }
  }
}
struct Expect {
  std::map<std::string, int64_t> files;
  std::set<std::string> failed;  // relative directories that cannot be opened
  std::map<std::string, std::pair<dev_t, ino_t>> ids;
};
// independent recursive walk
void walk(const std::string& root, const std::string& rel, bool follow, const Filters& fl, Expect& e, int depth = 0) {
  if (depth > 40) return;
  DIR* d = opendir((root + "/" + rel).c_str());
  if (!d) { e.failed.insert(rel); return; }
  std::vector<std::string> n;
  while (auto* x = readdir(d)) if (strcmp(x->d_name, ".") && strcmp(x->d_name, "..")) n.push_back(x->d_name);
  closedir(d);
  for (auto& x : n) {
    std::string r = rel + x;
    struct stat st;
    if ((follow ? stat : lstat)((root + "/" + r).c_str(), &st)) continue;
    if (S_ISREG(st.st_mode)) {
      if (fl.ok(r)) { e.files[r] = st.st_size; e.ids[r] = {st.st_dev, st.st_ino}; }
    } else if (S_ISDIR(st.st_mode)) {
      if (!fl.pruned(r + "/")) walk(root, r + "/", follow, fl, e, depth + 1);
    }
  }
}
struct Got {
  std::map<std::string, int64_t> files;
  std::map<std::string, std::string> full;
  std::vector<std::string> failed;
  bool ret{false};
  ErrorCode status{OK};
  int64_t count{0}, total{0};
};
struct Run {
  bool follow{false}, async{false};
  int openFds{0};
  bool direct{false};
  std::string rootArg;
  int64_t abortAfter{-1};
};
Got discover(Case& c, const Run& r, const Filters& fl, bool drain = true) {
  Got g;
  WdtOptions o;
  Abort ab;
  ab.left = r.abortAfter;
  DirectorySourceQueue q(o, r.rootArg, &ab);
  q.setFollowSymlinks(r.follow);
  if (fl.inc) q.setIncludePattern(fl.inc->src());
  if (fl.exc) q.setExcludePattern(fl.exc->src());
  if (fl.prune) q.setPruneDirPattern(fl.prune->src());
  q.setOpenFilesDuringDiscovery(r.openFds);
  q.setDirectReads(r.direct);
  std::thread th;
  PBT_CHECK(c, !q.finished() && !q.fileDiscoveryFinished(), "finished before discovery started");
  if (r.async) th = q.buildQueueAsynchronously();
  else {
    g.ret = q.buildQueueSynchronously();
    PBT_CHECK(c, !q.buildQueueSynchronously(), "the queue was built twice");
  }
  std::string bad;
  if (drain) {
    ThreadCtx ctx(o, true, 0);
    ctx.setAbortChecker(&ab);
    std::map<std::string, int> seen;
    while (true) {
      ErrorCode st;
      auto s = q.getNextSource(&ctx, st);
      if (!s) break;
      if (s->getOffset() != 0) bad = "offset of " + s->getIdentifier();
      if (++seen[s->getIdentifier()] > 1) bad = "handed out twice: " + s->getIdentifier();
      g.files[s->getIdentifier()] = s->getSize();
    }
    if (th.joinable()) th.join();
    if (bad.empty() && seen.size() != q.getDiscoveredFilesMetaData().size()) bad = "sources and discovered files differ: " + std::to_string(seen.size());
  }
  if (th.joinable()) th.join();
  std::map<std::string, int> names;
  int64_t nOpen = 0;
  for (auto* m : q.getDiscoveredFilesMetaData()) {
    if (++names[m->relPath] > 1) bad = "discovered twice: " + m->relPath;
    g.full[m->relPath] = m->fullPath;
    if (m->fd >= 0) nOpen++;
    if (drain && g.files.count(m->relPath) && g.files[m->relPath] != m->size) bad = "size of source and file differ: " + m->relPath;
    g.files[m->relPath] = m->size;
    if (m->directReads != r.direct) bad = "direct reads flag of " + m->relPath;
  }
  if (bad.empty() && r.openFds == 0 && nOpen) bad = "files were opened during discovery";
  if (bad.empty() && r.openFds > 0 && nOpen > r.openFds) bad = "more files opened during discovery than asked";
  if (bad.empty() && r.openFds < 0 && nOpen != (int64_t)names.size()) bad = "not all files opened during discovery";
  PBT_CHECK(c, bad.empty(), bad);
  PBT_CHECK(c, q.fileDiscoveryFinished(), "discovery not finished");
  g.failed = q.getFailedDirectories();
  g.status = q.getNumBlocksAndStatus().second;
  g.count = q.getCount();
  g.total = q.getTotalSize();
  return g;
}
int openFds() {
  int n = 0;
  for (int i = 0; i < 256; i++)
    if (fcntl(i, F_GETFD) != -1) n++;
  return n;
}
void compare(Case& c, const Got& g, const Expect& e) {
  for (auto& p : e.files) {
    PBT_CHECK(c, g.files.count(p.first), "not discovered: " << pbt::show(p.first));
    PBT_EQ(c, g.files.at(p.first), p.second, "size of " << pbt::show(p.first));
    struct stat st;
    PBT_CHECK(c, !stat(g.full.at(p.first).c_str(), &st), "full path of " << p.first << " does not exist: " << g.full.at(p.first));
    auto& id = e.ids.at(p.first);
    PBT_CHECK(c, id.first == st.st_dev && id.second == st.st_ino, "full path of " << p.first << " is another file: " << g.full.at(p.first));
  }
  for (auto& p : g.files) PBT_CHECK(c, e.files.count(p.first), "discovered but should not be: " << pbt::show(p.first));
  PBT_EQ(c, g.count, (int64_t)e.files.size(), "count");
  int64_t tot = 0;
  for (auto& p : e.files) tot += p.second;
  PBT_EQ(c, g.total, tot, "total size");
}
Filters genFilters(Case& c, const Tree& t) {
  Filters f;
  std::vector<std::string> files, dirs;
  for (auto& p : t.paths) (p.back() == '/' ? dirs : files).push_back(p);
  if (c.chance(2, 5)) f.inc = genRx(c, files);
  if (c.chance(2, 5)) f.exc = genRx(c, files);
  if (c.chance(2, 5)) f.prune = genRx(c, dirs);
  for (auto* p : {&f.inc, &f.exc, &f.prune})
    if (*p && (*p)->src().empty()) *p = nullptr;  // the empty pattern means no filter
  return f;
}
Tree newTree(Case& c) {
  Tree t;
  t.base = c.scratch();
  t.root = t.base + "/src";
  mkdir(t.root.c_str(), 0755);
  mkdir((t.base + "/out").c_str(), 0755);
  mkfifo((t.base + "/out/fifo").c_str(), 0644);
  return t;
}
std::string rootForm(Case& c, const Tree& t) {
  switch (c.draw(5)) {
    case 1: return t.root + "/";
    case 2: return t.base + "/./src";
    case 3: return t.base + "/out/../src//";
    case 4:
      if (!symlink("src", (t.base + "/rootlink").c_str()) || errno == EEXIST) return t.base + "/rootlink";
      return t.root;
    case 5: return "<relative>";
    default: return t.root;
  }
}
struct Cwd {
  int fd{-1};
  ~Cwd() { if (fd >= 0) { if (fchdir(fd)) {} close(fd); } }
  void go(const std::string& d) { fd = open(".", O_RDONLY | O_DIRECTORY); if (chdir(d.c_str())) {} }
};
void classify(Case& c, const Expect& all, const Expect& e, const Filters& fl) {
  if (fl.inc) c.label("include");
  if (fl.exc) c.label("exclude");
  if (fl.prune) c.label("prune");
  if (!e.files.empty() && e.files.size() < all.files.size()) { c.label("filters select a proper part"); c.nontrivial(); }
  if (!fl.inc && !fl.exc && !fl.prune && e.files.size() > 1) c.nontrivial();
}
void filters(Case& c) {
  Tree t = newTree(c);
  int links = c.draw(1);
  Run r;
  r.follow = links && c.chance(2, 3);
  grow(c, t, (int)c.logRange(0, 30), links);
  Filters fl = genFilters(c, t);
  r.async = c.chance(1, 4);
  r.openFds = c.chance(1, 4) ? (c.flip() ? -1 : (int)c.range(1, 5)) : 0;
  r.direct = c.chance(1, 6);
  r.rootArg = rootForm(c, t);
  Cwd cwd;
  if (r.rootArg == "<relative>") { cwd.go(t.base); r.rootArg = c.flip() ? "src" : "./src/"; }
  c.note([&] { return "root as " + r.rootArg.substr(r.rootArg.find("/src") == std::string::npos ? 0 : r.rootArg.find("/src")) + " " + fl.show() + (r.follow ? " follow" : "") + (r.async ? " async" : "") + " openFds " + std::to_string(r.openFds) + "\n" + t.desc; });
  Expect e, all;
  walk(t.root, "", r.follow, fl, e);
  walk(t.root, "", r.follow, Filters(), all);
  int before = openFds();
  Got g = discover(c, r, fl);
  PBT_EQ(c, openFds(), before, "descriptors left open");
  compare(c, g, e);
  PBT_CHECK(c, g.failed.empty(), "a directory failed: " << g.failed[0]);
  if (!links && !r.async) PBT_CHECK(c, g.ret, "build failed on a readable tree");
  PBT_EQ(c, g.status, OK, "status");
  classify(c, all, e, fl);
  if (r.follow && t.desc.find("link ") != std::string::npos) c.label("followed links");
}
// arbitrary links, including cycles
void wild(Case& c) {
  Tree t = newTree(c);
  grow(c, t, (int)c.logRange(1, 25), 2);
  Filters fl = c.flip() ? genFilters(c, t) : Filters();
  Run r;
  r.follow = c.chance(7, 8);
  r.rootArg = rootForm(c, t);
  Cwd cwd;
  if (r.rootArg == "<relative>") { cwd.go(t.base); r.rootArg = "src"; }
  c.note([&] { return fl.show() + (r.follow ? " follow\n" : "\n") + t.desc; });
  Got g = discover(c, r, fl, false);
  std::set<std::pair<dev_t, ino_t>> found;
  for (auto& p : g.files) {
    struct stat st, s2;
    PBT_CHECK(c, !stat((t.root + "/" + p.first).c_str(), &st) && S_ISREG(st.st_mode), "not a regular file: " << p.first);
    PBT_CHECK(c, !stat(g.full[p.first].c_str(), &s2) && st.st_ino == s2.st_ino, "full path differs: " << g.full[p.first]);
    PBT_EQ(c, p.second, (int64_t)st.st_size, "size of " << p.first);
    PBT_CHECK(c, fl.ok(p.first), "does not pass the filters: " << p.first);
    PBT_CHECK(c, !fl.prunedAncestor(p.first), "under a pruned directory: " << p.first);
    found.insert({st.st_dev, st.st_ino});
  }
  // where a link leads is entered neither through a second link nor by its own path
  if (r.follow) {
    char* rr = realpath(t.root.c_str(), nullptr);
    std::string realRoot = rr ? rr : "";
    free(rr);
    std::map<std::string, std::string> by;  // what was entered (as the target of a link, or directly) -> logical name
    std::set<std::string> done;
    for (auto& p : g.files) {
      for (size_t i = p.first.find('/'); i != std::string::npos; i = p.first.find('/', i + 1)) {
        std::string d = p.first.substr(0, i), cur = t.root;
        if (!done.insert(d).second) continue;
        bool link = false, above = false;
        for (size_t b = 0; b <= d.size();) {
          size_t e = d.find('/', b);
          if (e == std::string::npos) e = d.size();
          above |= link;
          cur += "/" + d.substr(b, e - b);
          struct stat st;
          link = !lstat(cur.c_str(), &st) && S_ISLNK(st.st_mode);
          b = e + 1;
        }
        if (!link && above) continue;  // below a link: known by another name
        char* rp = realpath(cur.c_str(), nullptr);
        if (!rp) continue;
        std::string key = rp;
        free(rp);
        if (key == realRoot && !link) continue;
        if (link) c.label("entered a linked directory");
        auto ins = by.insert({key, d});
        PBT_CHECK(c, ins.second, "directory entered twice: as " << ins.first->second << " and as " << d);
      }
    }
  }
  // everything reachable (each physical directory once) is found under some name
  if (!fl.inc && !fl.exc && !fl.prune) {
    std::set<ino_t> seenDirs;
    std::vector<std::string> todo{t.root};
    while (!todo.empty()) {
      std::string d = todo.back();
      todo.pop_back();
      struct stat st;
      if (stat(d.c_str(), &st) || !seenDirs.insert(st.st_ino).second) continue;
      DIR* dp = opendir(d.c_str());
      if (!dp) continue;
      while (auto* x = readdir(dp)) {
        if (!strcmp(x->d_name, ".") || !strcmp(x->d_name, "..")) continue;
        std::string f = d + "/" + x->d_name;
        if ((r.follow ? stat : lstat)(f.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) todo.push_back(f);
        if (S_ISREG(st.st_mode)) PBT_CHECK(c, found.count({st.st_dev, st.st_ino}), "reachable file not discovered: " << f.substr(t.base.size()));
      }
      closedir(dp);
    }
    if (found.size() > 1) { c.nontrivial(); c.label("coverage checked"); }
  } else if (!found.empty()) {
    c.nontrivial();
  }
}
// a link is the only unpruned way into a pruned directory of the tree
void prunedTarget(Case& c) {
  Tree t = newTree(c);
  grow(c, t, (int)c.logRange(0, 8), 0);
  std::string name = c.pick<std::string>({"skip", "zskip", "0skip"});
  mkdir((t.root + "/" + name).c_str(), 0755);
  int k = c.range(1, 3);
  for (int i = 0; i < k; i++) mkfile(t.root + "/" + name + "/f" + std::to_string(i), i);
  std::string ln = c.pick<std::string>({"l", "zz", "00"});
  std::string at = t.dirs[c.draw(t.dirs.size() - 1)] + ln;
  if (!fresh(t.root + "/" + at)) c.discard();
  if (symlink((t.root + "/" + name).c_str(), (t.root + "/" + at).c_str())) c.discard();
  Filters fl;
  fl.prune = Rx::text(name + "/");
  Run r;
  r.follow = true;
  r.rootArg = t.root;
  c.note([&] { return t.desc + name + " pruned, link " + at; });
  Expect e;
  walk(t.root, "", true, fl, e);
  Got g = discover(c, r, fl);
  compare(c, g, e);
  c.nontrivial();
}
// unreadable directories, seen by an unprivileged user
void unreadable(Case& c) {
  Tree t = newTree(c);
  grow(c, t, (int)c.logRange(2, 25), 0);
  std::string up = t.base;
  // let the unprivileged user reach the scratch directory
  for (int i = 0; i < 3; i++) {
    up = up.substr(0, up.rfind('/'));
    if (up.size() <= 4) break;
    struct stat st;
    if (!stat(up.c_str(), &st) && !(st.st_mode & 0001)) chmod(up.c_str(), st.st_mode | 0011);
  }
  std::vector<std::string> shut;
  bool listable = false;
  int n = c.range(1, 3);
  for (int i = 0; i < n; i++) {
    const std::string& d = t.dirs[c.chance(1, 15) ? 0 : c.draw(t.dirs.size() - 1)];
    int mode = c.pick<int>({0000, 0111, 0000, 0444});
    if (mode == 0444) listable = true;
    shut.push_back(t.root + "/" + d);
    chmod(shut.back().c_str(), mode);
    t.add("mode " + std::to_string(mode) + " " + d);
  }
  Filters fl;
  if (c.chance(1, 3)) fl = genFilters(c, t);
  Run r;
  r.rootArg = t.root;
  r.follow = c.chance(1, 4);
  c.note([&] { return fl.show() + "\n" + t.desc; });
  struct Back {
    std::vector<std::string>& shut;
    ~Back() { if (seteuid(0)) {} for (auto& s : shut) chmod(s.c_str(), 0755); }
  } back{shut};
  if (seteuid(65534)) { c.label("cannot become unprivileged"); c.discard(); }
  struct stat st;
  if (stat((t.base + "/out").c_str(), &st)) { c.label("scratch not reachable"); c.discard(); }
  Expect e;
  walk(t.root, "", r.follow, fl, e);
  // discovery only: files themselves stay readable
  Got g = discover(c, r, fl, false);
  compare(c, g, e);
  std::set<std::string> failed;
  for (auto& f : g.failed) {
    PBT_CHECK(c, f.compare(0, t.root.size() + 1, t.root + "/") == 0, "failed directory outside the root: " << f);
    PBT_CHECK(c, failed.insert(f.substr(t.root.size() + 1)).second, "failed twice: " << f);
  }
  for (auto& f : e.failed) PBT_CHECK(c, failed.count(f), "unreadable directory not reported: '" << f << "'");
  if (!listable)
    for (auto& f : failed) PBT_CHECK(c, e.failed.count(f), "readable directory reported as failed: " << f);
  PBT_EQ(c, g.ret, e.failed.empty() && failed.empty() && !(listable && !g.ret), "result of the build");
  if (!failed.empty()) {
    PBT_EQ(c, g.status, BYTE_SOURCE_READ_ERROR, "status with unreadable directories");
    c.nontrivial();
    c.label("unreadable directories");
    if (!e.files.empty()) c.label("and files elsewhere");
  }
}
// directories deeper than the longest path the system accepts; missing root
void deep(Case& c) {
  Tree t = newTree(c);
  if (c.chance(1, 8)) {
    Run r;
    r.rootArg = t.base + "/missing";
    r.follow = false;
    Got g = discover(c, r, Filters());
    PBT_CHECK(c, g.files.empty() && !g.ret && g.failed.size() == 1, "missing root: files " << g.files.size() << " result " << g.ret << " failed " << g.failed.size());
    PBT_CHECK(c, g.status != OK, "missing root reported as ok");
    c.nontrivial();
    return;
  }
  std::vector<int> fds{open(t.root.c_str(), O_RDONLY | O_DIRECTORY)};
  std::vector<std::string> names;
  struct Clean {
    std::vector<int>& fds; std::vector<std::string>& names;
    ~Clean() {
      for (size_t i = fds.size(); i-- > 0;) {
        unlinkat(fds[i], "z", 0);
        unlinkat(fds[i], "a", 0);
        if (i < names.size()) unlinkat(fds[i], names[i].c_str(), AT_REMOVEDIR);
        close(fds[i]);
      }
    }
  } clean{fds, names};
  std::set<std::string> expect, failed;
  std::string rel;
  int levels = c.range(15, 22), len = c.range(230, 255);
  for (int i = 0; i <= levels; i++) {
    for (const char* f : {"a", "z"}) {
      if (!c.flip()) continue;
      int fd = openat(fds.back(), f, O_CREAT | O_WRONLY, 0644);
      if (fd >= 0) close(fd);
      if ((t.root + "/" + rel + f).size() < 4096) expect.insert(rel + f);
    }
    if (i == levels) break;
    names.push_back(std::string(len, 'd'));
    if (mkdirat(fds.back(), names.back().c_str(), 0755)) { names.pop_back(); break; }
    int fd = openat(fds.back(), names.back().c_str(), O_RDONLY | O_DIRECTORY);
    rel += names.back() + "/";
    fds.push_back(fd);
  }
  c.note([&] { return std::to_string(levels) + " levels of " + std::to_string(len) + " characters"; });
  Run r;
  r.rootArg = t.root;
  Got g = discover(c, r, Filters());
  for (auto& f : expect) PBT_CHECK(c, g.files.count(f), "not discovered, path length " << (t.root + "/" + f).size());
  for (auto& f : g.files) PBT_CHECK(c, expect.count(f.first), "discovered a file that cannot be named");
  bool tooDeep = (t.root + "/" + rel).size() > 4095;
  PBT_EQ(c, g.failed.size(), (size_t)tooDeep, "failed directories");
  if (tooDeep) {
    PBT_CHECK(c, !g.ret, "result");
    PBT_EQ(c, g.status, BYTE_SOURCE_READ_ERROR, "status");
    c.nontrivial();
  }
}
// an abort stops the walk: what was found is still right
void aborted(Case& c) {
  Tree t = newTree(c);
  grow(c, t, (int)c.logRange(3, 25), 0);
  Filters fl = genFilters(c, t);
  Run r;
  r.rootArg = t.root;
  r.abortAfter = c.logRange(0, 60);
  Expect e;
  walk(t.root, "", false, fl, e);
  c.note([&] { return fl.show() + " abort after " + std::to_string(r.abortAfter) + " checks\n" + t.desc; });
  Got g = discover(c, r, fl, false);
  for (auto& p : g.files) {
    PBT_CHECK(c, e.files.count(p.first), "discovered but should not be: " << p.first);
    PBT_EQ(c, p.second, e.files[p.first], "size of " << p.first);
  }
  if (g.files.size() < e.files.size()) c.nontrivial();
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::main(argc, argv, "C09",
                   {{"filters", filters, 12000, 200000, 60, false, "at least two files without filters, or filters that select a proper non-empty part"},
                    {"wild_links", wild, 4000, 60000, 60, false, "files found (several when unfiltered)"},
                    {"pruned_target", prunedTarget, 400, 6000, 60, false, "every case"},
                    {"unreadable", unreadable, 3000, 50000, 60, false, "an unreadable directory that is not pruned"},
                    {"deep", deep, 300, 3000, 60, false, "missing root or a directory beyond the longest path"},
                    {"aborted", aborted, 1500, 20000, 60, false, "the abort left files undiscovered"}});
}
