#pragma once
// A model of the transfer log: a list of entries and what reading them back means.
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <wdt/util/TransferLogManager.h>
#include "common_proc.h"
#include "pbt.h"
namespace tl {
using namespace facebook::wdt;
using pbt::Case;
struct Log : TransferLogManager {
  using TransferLogManager::TransferLogManager;
  ~Log() { closeLog(); }
};
enum T { HDR, CREATE, BLOCK, RESIZE, INVAL, DIRINV };
struct E {
  T t;
  int64_t seq{0}, a{0}, b{0};  // CREATE a=size, RESIZE a=size, BLOCK a=offset b=size, HDR a=config
  std::string s, ip;           // CREATE name, HDR recovery id
};
inline std::string str(const E& e) {
  std::ostringstream o;
  const char* n[] = {"header", "create", "block", "resize", "invalidate", "dir-invalid"};
  o << n[e.t];
  if (e.t == HDR) o << " '" << e.s << "' ip " << e.ip << " config " << e.a;
  else if (e.t != DIRINV) o << " #" << e.seq << (e.t == CREATE ? " " + e.s : "") << (e.t == INVAL ? "" : " " + std::to_string(e.a)) << (e.t == BLOCK ? "+" + std::to_string(e.b) : "");
  return o.str();
}
using Iv = std::vector<std::pair<int64_t, int64_t>>;
inline Iv normal(Iv v) {  // union as sorted disjoint non-empty intervals
  std::sort(v.begin(), v.end());
  Iv r;
  for (auto& x : v) {
    if (x.first >= x.second) continue;
    if (!r.empty() && x.first <= r.back().second) r.back().second = std::max(r.back().second, x.second);
    else r.push_back(x);
  }
  return r;
}
struct FileSt { std::string name; int64_t logged{0}, disk{0}; Iv blocks; };
struct State {
  ErrorCode status{OK};
  std::map<int64_t, FileSt> files;
  std::set<int64_t> invalid;
  std::string ip;
};
inline int64_t diskSize(const std::string& root, const std::string& name) {
  struct stat st;
  return stat((root + "/" + name).c_str(), &st) ? -1 : st.st_size;
}
inline State eval(const std::vector<E>& es, size_t n, const std::string& root, const std::string& rid, int64_t cfg, bool prealloc) {
  State s;
  bool hdr = false;
  auto clear = [&] { s.files.clear(); s.invalid.clear(); };
  for (size_t i = 0; i < n; i++) {
    const E& e = es[i];
    if (s.status == INCONSISTENT_DIRECTORY && e.t != HDR) continue;
    switch (e.t) {
      case HDR:
        s.ip = e.ip;
        if (e.s != rid || e.a != cfg) { s.status = INCONSISTENT_DIRECTORY; clear(); } else { s.status = OK; hdr = true; }
        break;
      case CREATE: {
        int64_t d = diskSize(root, e.s);
        if (d < 0 || (prealloc && d < e.a)) s.invalid.insert(e.seq);
        else s.files[e.seq] = FileSt{e.s, e.a, d, {}};
        break;
      }
      case RESIZE:
        if (s.invalid.count(e.seq)) break;
        // made smaller later
        if (prealloc && e.a > s.files[e.seq].disk) { s.files.erase(e.seq); s.invalid.insert(e.seq); break; }
        s.files[e.seq].logged = e.a;
        break;
      case BLOCK:
        if (s.invalid.count(e.seq)) break;
        if (e.a + e.b > s.files[e.seq].disk) {
          if (prealloc) { s.status = INVALID_LOG; clear(); return s; }
          s.files.erase(e.seq);
          s.invalid.insert(e.seq);
          break;
        }
        s.files[e.seq].blocks.push_back({e.a, e.a + e.b});
        break;
      case INVAL: s.files.erase(e.seq); s.invalid.erase(e.seq); break;
      case DIRINV: hdr = false; s.status = INCONSISTENT_DIRECTORY; clear(); break;
    }
  }
  (void)hdr;
  if (s.status != OK) clear();
  return s;
}
inline std::string ivStr(const Iv& v) {
  std::string r;
  for (auto& x : v) r += "[" + std::to_string(x.first) + "," + std::to_string(x.second) + ")";
  return r.empty() ? "nothing" : r;
}
// compares what the log manager restored with the model
inline void compare(Case& c, const State& want, ErrorCode code, const std::vector<FileChunksInfo>& got, const std::string& when) {
  PBT_EQ(c, code, want.status, "status of reading the log " << when);
  std::map<int64_t, const FileChunksInfo*> g;
  for (auto& f : got) {
    PBT_CHECK(c, !g.count(f.getSeqId()), "sequence id " << f.getSeqId() << " restored twice " << when);
    g[f.getSeqId()] = &f;
  }
  for (auto& p : want.files) {
    auto it = g.find(p.first);
    PBT_CHECK(c, it != g.end(), "file #" << p.first << " " << p.second.name << " not restored " << when);
    PBT_EQ(c, it->second->getFileName(), p.second.name, "name of #" << p.first << " " << when);
    PBT_EQ(c, it->second->getFileSize(), p.second.disk, "size of #" << p.first << " " << when);
    Iv v;
    for (auto& x : it->second->getChunks()) v.push_back({x.start_, x.end_});
    PBT_EQ(c, ivStr(normal(v)), ivStr(normal(p.second.blocks)), "blocks of #" << p.first << " " << p.second.name << " " << when << " (got, logged)");
  }
  for (auto& p : g) PBT_CHECK(c, want.files.count(p.first), "file #" << p.first << " " << p.second->getFileName() << " restored although it is not valid " << when);
}
// frames of a log file: [begin, end) of every complete length-prefixed entry
inline std::vector<std::pair<size_t, size_t>> frames(const std::string& d) {
  std::vector<std::pair<size_t, size_t>> v;
  size_t p = 0;
  while (p + 2 <= d.size()) {
    int n = (unsigned char)d[p] | ((unsigned char)d[p + 1] << 8);
    if (p + 2 + n > d.size()) break;
    v.push_back({p, p + 2 + n});
    p += 2 + n;
  }
  return v;
}
inline void setSize(const std::string& root, const std::string& name, int64_t size) {
  for (size_t i = 0; i < name.size(); i++)
    if (name[i] == '/') mkdir((root + "/" + name.substr(0, i)).c_str(), 0755);
  int fd = ::open((root + "/" + name).c_str(), O_CREAT | O_WRONLY, 0644);
  if (fd < 0) return;
  if (ftruncate(fd, size)) throw pbt::Discard();
  ::close(fd);
}
inline int64_t config(const WdtOptions& o) { return (o.shouldPreallocateFiles() ? 1 : 0) | (o.resume_using_dir_tree ? 2 : 0); }
// generates what a receiver logs during one session and does it on disk
struct Gen {
  Case& c;
  std::string root;
  bool prealloc;
  int64_t nextSeq{0};
  struct Live { std::string name; int64_t size; };
  std::map<int64_t, Live> live;  // as the receiver knows them
  std::vector<E> hist;
  E shrunk{INVAL};
  int names{0};
  std::vector<int64_t> freed;
  bool big{false};
  Gen(Case& cc, std::string r, bool p) : c(cc), root(std::move(r)), prealloc(p) {}
  int64_t genSize() { return c.chance(1, 8) ? 0 : c.logRange(1, big && c.chance(1, 4) ? int64_t{1} << 40 : 100000); }
  int64_t pickSeq() {
    auto it = live.begin();
    std::advance(it, c.draw(live.size() - 1));
    return it->first;
  }
  // one entry; performs the effect on disk first, like the receiver
  E next() {
    E e;
    if (shrunk.t == CREATE) {  // second half of a replacement by a shorter file
      e = shrunk;
      shrunk.t = INVAL;
      e.seq = nextSeq++;
      live[e.seq] = {e.s, e.a};
      hist.push_back(e);
      return e;
    }
    size_t w = live.empty() ? 0 : c.weighted({4, 10, 3, 2, 2});
    switch (w) {
      case 4: {  // a shorter file takes the place of one
        e.t = INVAL;
        e.seq = pickSeq();
        Live l = live[e.seq];
        live.erase(e.seq);
        shrunk.t = CREATE;
        shrunk.s = l.name;
        shrunk.a = l.size > 0 ? c.range(0, l.size - 1) : 0;
        setSize(root, l.name, shrunk.a);
        break;
      }
      case 0: {
        e.t = CREATE;
        if (!freed.empty() && c.flip()) {  // numbers of files written off are used again
          e.seq = freed.back();
          freed.pop_back();
        } else {
          e.seq = nextSeq;
          nextSeq += c.chance(1, 10) ? c.logRange(1, 1000000) : 1;
        }
        e.s = "f" + std::to_string(names++);
        if (c.chance(1, 4)) e.s = c.pick<std::string>({"d/", "a b/", "d/e/"}) + e.s;
        if (c.chance(1, 20)) e.s += std::string(c.logRange(1, 200), 'n');
        e.a = genSize();
        live[e.seq] = {e.s, e.a};
        setSize(root, e.s, prealloc ? e.a : 0);
        break;
      }
      case 1: {
        e.t = BLOCK;
        e.seq = pickSeq();
        Live& l = live[e.seq];
        e.a = c.range(0, l.size);
        e.b = c.flip() ? l.size - e.a : c.range(0, l.size - e.a);
        if (c.chance(1, 4)) { e.a = 0; e.b = l.size; }
        if (diskSize(root, l.name) < e.a + e.b) setSize(root, l.name, e.a + e.b);
        break;
      }
      case 2: {  // grows
        e.t = RESIZE;
        e.seq = pickSeq();
        Live& l = live[e.seq];
        if (!prealloc && c.chance(1, 3)) {  // the source shrank, to not less than what is on the disk
          int64_t d = diskSize(root, l.name);
          l.size = c.range(d, std::max(d, l.size));
        } else {
          l.size += c.logRange(0, 100000);
        }
        e.a = l.size;
        if (prealloc) setSize(root, l.name, l.size);
        break;
      }
      default:
        e.t = INVAL;
        e.seq = pickSeq();
        live.erase(e.seq);
        freed.push_back(e.seq);
        break;
    }
    hist.push_back(e);
    return e;
  }
};
inline void add(TransferLogManager& m, const E& e) {
  switch (e.t) {
    case CREATE: m.addFileCreationEntry(e.s, e.seq, e.a); break;
    case BLOCK: m.addBlockWriteEntry(e.seq, e.a, e.b); break;
    case RESIZE: m.addFileResizeEntry(e.seq, e.a); break;
    case INVAL: m.addFileInvalidationEntry(e.seq); break;
    default: break;
  }
}
}  // namespace tl
