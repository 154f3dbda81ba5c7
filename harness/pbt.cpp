#include "pbt.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <grp.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <fstream>
#include <iostream>
#include <set>
#include <unordered_set>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
#endif
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=77:handle_abort=0:allocator_may_return_null=0:"
         "detect_stack_use_after_return=0:max_allocation_size_mb=6000:print_legend=0:symbolize=1";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }

namespace pbt {

static const size_t kMaxChoices = 1 << 21;
static const size_t kMsg = 16384;

struct Slot {
  // current case
  volatile int32_t sub;
  volatile int64_t index;
  volatile double started;
  volatile double deadline;  // seconds allowed
  volatile uint64_t nChoices;
  volatile int32_t failed;  // in-process failure recorded
  volatile int32_t finished;
  volatile uint64_t done;
  char msg[kMsg];
  char notes[kMsg];
  uint64_t choices[kMaxChoices];
};

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x9e3779b97f4a7c15ULL ^ (b + 0x7f4a7c159e3779b9ULL));
  r.next();
  return r.next() ^ (b << 17);
}
uint64_t hashBytes(const void* p, size_t n, uint64_t h) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) {
    h ^= c[i];
    h *= 0x100000001b3ULL;
  }
  return h;
}

std::string show(const std::string& s, size_t max) {
  std::string r = "\"";
  char b[8];
  for (size_t i = 0; i < s.size() && i < max; i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') {
      r += '\\';
      r += (char)c;
    } else if (c >= 32 && c < 127) {
      r += (char)c;
    } else {
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    }
  }
  r += "\"";
  if (s.size() > max) r += "...(" + std::to_string(s.size()) + " bytes)";
  return r;
}

// ------------------------------------------------------------------ Case
uint64_t Case::draw(uint64_t max, const std::function<uint64_t(Rng&)>& sampler) {
  uint64_t v;
  if (pos_ < prefix_.size()) {
    v = prefix_[pos_];
    if (v > max) v = max;
  } else if (replay_) {
    v = 0;
  } else {
    v = sampler(rng_);
    if (v > max) v = max;
  }
  pos_++;
  if (slot_) {
    uint64_t n = slot_->nChoices;
    if (n >= kMaxChoices) throw Discard();
    slot_->choices[n] = v;
    slot_->nChoices = n + 1;
  }
  return v;
}
uint64_t Case::draw(uint64_t max) {
  if (max == ~0ULL) return draw(max, [](Rng& r) { return r.next(); });
  return draw(max, [max](Rng& r) { return r.below(max + 1); });
}
int64_t Case::range(int64_t lo, int64_t hi) {
  if (hi <= lo) return lo;
  return (int64_t)((uint64_t)lo + draw((uint64_t)hi - (uint64_t)lo));
}
int64_t Case::logRange(int64_t lo, int64_t hi) {
  if (hi <= lo) return lo;
  uint64_t span = (uint64_t)hi - (uint64_t)lo;
  uint64_t v = draw(span, [span](Rng& r) {
    int bits = 0;
    while (bits < 64 && (span >> bits)) bits++;
    uint64_t b = r.below(bits + 1);
    if (b == 0) return (uint64_t)0;
    uint64_t base = 1ULL << (b - 1);
    uint64_t x = base + r.below(base);
    return x > span ? r.below(span + 1) : x;
  });
  return (int64_t)((uint64_t)lo + v);
}
bool Case::chance(unsigned num, unsigned den) {
  return draw(1, [=](Rng& r) { return (uint64_t)(r.below(den) < num); });
}
uint64_t Case::u64() {
  return draw(~0ULL, [](Rng& r) {
    uint64_t b = r.below(65);
    uint64_t v = b == 0 ? 0 : (b == 64 ? r.next() : r.next() & ((1ULL << b) - 1));
    switch (r.below(4)) {
      case 0:
        v = b == 64 ? ~0ULL : (1ULL << b);
        v += r.below(5);
        v -= 2;
        break;
      default:
        break;
    }
    return v;
  });
}
size_t Case::weighted(const std::vector<unsigned>& w) {
  uint64_t tot = 0;
  for (auto x : w) tot += x;
  return draw(w.size() - 1, [&](Rng& r) {
    uint64_t x = r.below(tot);
    for (size_t i = 0; i < w.size(); i++) {
      if (x < w[i]) return (uint64_t)i;
      x -= w[i];
    }
    return (uint64_t)0;
  });
}
std::string Case::bytesN(size_t n) {
  std::string s;
  s.reserve(n);
  for (size_t i = 0; i < n; i++) {
    s += (char)draw(255, [](Rng& r) {
      uint64_t k = r.below(8);
      if (k == 0) return (uint64_t)0;
      if (k == 1) return (uint64_t)255;
      if (k == 2) return r.below(8);
      return r.below(256);
    });
  }
  return s;
}
std::string Case::bytes(size_t lo, size_t hi) { return bytesN(logRange(lo, hi)); }
std::string Case::blob(size_t n) {
  uint64_t kind = draw(~0ULL);
  std::string s(n, 0);
  Rng r(kind);
  if (kind == 0) {
    for (size_t i = 0; i < n; i++) s[i] = (char)('a' + i % 23);
    return s;
  }
  size_t i = 0;
  while (i < n) {
    uint64_t v = r.next();
    for (int k = 0; k < 8 && i < n; k++, i++) s[i] = (char)(v >> (8 * k));
  }
  return s;
}
std::string Case::str(size_t lo, size_t hi, const std::string& a) {
  size_t n = logRange(lo, hi);
  std::string s;
  for (size_t i = 0; i < n; i++) s += a[draw(a.size() - 1)];
  return s;
}
void Case::label(const std::string& l) {
  if (labels_) (*labels_)[l]++;
}
void Case::addNote(const std::string& s) {
  notesText_ += s;
  notesText_ += "\n";
  if (slot_) {
    strncpy(slot_->notes, notesText_.c_str(), kMsg - 1);
    slot_->notes[kMsg - 1] = 0;
  }
}
void Case::fail(const std::string& m) { throw Failure(m); }
void Case::setDeadline(double s) {
  if (slot_) slot_->deadline = s;
}

static std::set<std::string> gKnown;
bool Case::known(const std::string& key) {
  if (!gKnown.count(key)) return false;
  if (knowns_) (*knowns_)[key]++;
  return true;
}

static std::string gScratchRoot;
static std::string gWorkerDir;
static uint64_t gScratchN = 0;

static int rmCb(const char* p, const struct stat* st, int flag, struct FTW*) {
  if (flag == FTW_DNR) chmod(p, 0700);
  if (S_ISDIR(st->st_mode)) rmdir(p);
  else unlink(p);
  return 0;
}
static int chCb(const char* p, const struct stat* st, int, struct FTW*) {
  if (S_ISDIR(st->st_mode) && (st->st_mode & 0700) != 0700) chmod(p, 0700);
  return 0;
}
static void rmTree(const std::string& d) {
  // only ever called on directories under the scratch root
  if (gScratchRoot.size() < 10 || d.compare(0, gScratchRoot.size(), gScratchRoot) != 0) return;
  nftw(d.c_str(), chCb, 32, FTW_PHYS | FTW_MOUNT);
  nftw(d.c_str(), rmCb, 32, FTW_DEPTH | FTW_PHYS | FTW_MOUNT);
}
std::string Case::scratch() {
  if (scratchDir_.empty()) {
    scratchDir_ = gWorkerDir + "/c" + std::to_string(gScratchN++);
    if (mkdir(scratchDir_.c_str(), 0777) != 0) {
      throw std::runtime_error("cannot create scratch " + scratchDir_ + ": " + strerror(errno));
    }
    chmod(scratchDir_.c_str(), 0777);
    std::string d = scratchDir_;
    end_.insert(end_.begin(), [d] { rmTree(d); });
  }
  return scratchDir_;
}

// ------------------------------------------------------------------ Engine
static std::string jsonStr(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += (char)c;
    } else if (c == '\n') r += "\\n";
    else if (c < 32 || c >= 127) {
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else r += (char)c;
  }
  return r + "\"";
}

struct Engine {
  std::string property;
  std::vector<Sub> subs;
  uint64_t seed{1};
  bool thorough{false};
  unsigned workers{8};
  double budget{300};
  std::string outFile, replayDir, replayFile, only;
  double scale{1.0};
  double shrinkBudget{60};
  bool drop{true};
  std::vector<Slot*> slots;  // workers + 1 extra for shrinking
  double t0;

  uint64_t count(size_t s) const {
    uint64_t n = thorough ? subs[s].thorough : subs[s].quick;
    n = (uint64_t)(n * scale);
    return n < 1 ? 1 : n;
  }

  static Slot* mkSlot() {
    void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
      perror("mmap");
      _exit(3);
    }
    return (Slot*)p;
  }

  struct WStats {
    std::vector<std::map<std::string, uint64_t>> labels;
    std::vector<uint64_t> done, nontriv, discarded;
    std::vector<std::unordered_set<uint64_t>> distinct;
    std::vector<std::vector<std::string>> samples;
    std::map<std::string, uint64_t> knowns;
    explicit WStats(size_t n) : labels(n), done(n), nontriv(n), discarded(n), distinct(n), samples(n) {}
  };

  // Runs one case in this process. Returns 0 ok, 1 failed, 2 discarded.
  int runCase(size_t s, Case& c, Slot* slot, WStats* st) {
    slot->sub = s;
    slot->nChoices = 0;
    slot->failed = 0;
    slot->msg[0] = 0;
    slot->notes[0] = 0;
    slot->deadline = subs[s].caseTimeout;
    slot->started = now();
    c.slot_ = slot;
    if (st) {
      c.labels_ = &st->labels[s];
      c.knowns_ = &st->knowns;
    }
    int rc = 0;
    std::string msg;
    try {
      subs[s].fn(c);
    } catch (const Failure& f) {
      rc = 1;
      msg = f.what();
    } catch (const Discard&) {
      rc = 2;
    } catch (const std::exception& e) {
      rc = 1;
      msg = std::string("unexpected exception: ") + e.what();
    } catch (...) {
      rc = 1;
      msg = "unexpected exception of unknown type";
    }
    if (rc == 1) {
      strncpy(slot->msg, msg.c_str(), kMsg - 1);
      slot->msg[kMsg - 1] = 0;
      slot->failed = 1;
    }
    for (auto it = c.end_.rbegin(); it != c.end_.rend(); ++it) (*it)();
    slot->started = 0;
    if (st) {
      if (rc == 2) st->discarded[s]++;
      st->done[s]++;
      if (rc == 0 && c.nontrivial_) {
        st->nontriv[s]++;
        uint64_t h = hashBytes((const void*)slot->choices, slot->nChoices * 8);
        st->distinct[s].insert(h);
        if (st->samples[s].size() < 2 && !c.notesText_.empty()) st->samples[s].push_back(c.notesText_);
      }
    }
    return rc;
  }

  void childSetup(unsigned w, const std::string& errFile) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int fd = open(errFile.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0666);
    if (fd >= 0) {
      dup2(fd, 2);
      dup2(fd, 1);
      close(fd);
    }
    int nul = open("/dev/null", O_RDONLY);
    if (nul >= 0) {
      dup2(nul, 0);
      close(nul);
    }
    struct rlimit rl {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = 4ULL << 30;  // a case may raise it (sparse files)
    rl.rlim_max = RLIM_INFINITY;
    setrlimit(RLIMIT_FSIZE, &rl);
    signal(SIGPIPE, SIG_IGN);
    signal(SIGXFSZ, SIG_IGN);
    gWorkerDir = gScratchRoot + "/w" + std::to_string(w);
    mkdir(gWorkerDir.c_str(), 0777);
    chmod(gWorkerDir.c_str(), 0777);
    if (drop && geteuid() == 0) {
      if (chown(gWorkerDir.c_str(), 65534, 65534) != 0) _exit(3);
      gid_t g = 65534;
      if (setgroups(0, &g) != 0 || setgid(65534) != 0 || setuid(65534) != 0) _exit(3);
    }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
    umask(0022);
  }

  // worker main loop; 'next' gives the first index (per sub) not yet done
  [[noreturn]] void workerMain(unsigned w, std::vector<uint64_t> next) {
    childSetup(w, gScratchRoot + "/err" + std::to_string(w));
    Slot* slot = slots[w];
    WStats st(subs.size());
    gScratchN = (uint64_t)getpid() * 1000000;
    double end = t0 + budget;
    while (true) {
      // sub with the least progress
      size_t best = subs.size();
      double bp = 2;
      for (size_t s = 0; s < subs.size(); s++) {
        if (!active(s) || next[s] >= count(s)) continue;
        double p = (double)next[s] / count(s);
        if (p < bp) {
          bp = p;
          best = s;
        }
      }
      if (best == subs.size() || now() > end) break;
      uint64_t i = next[best];
      next[best] += strideOf(best);
      Case c;
      c.index_ = i;
      c.rng_ = Rng(mix(mix(seed, hashBytes(subs[best].name.data(), subs[best].name.size())), i));
      c.notes_ = st.samples[best].size() < 2 && w == 0;
      slot->index = i;
      int rc = runCase(best, c, slot, &st);
      slot->done = slot->done + 1;
      if (rc == 1) {
        writeStats(w, st);
        _exit(10);
      }
    }
    writeStats(w, st);
    slot->finished = 1;
    _exit(0);
  }
  unsigned strideOf(size_t s) const { return std::min(workers, std::max(1u, subs[s].maxWorkers)); }
  bool active(size_t s) const { return only.empty() || subs[s].name == only; }

  int gen_{0};
  void writeStats(unsigned w, const WStats& st) {
    std::string f = gWorkerDir + "/stats." + std::to_string(getpid());
    std::ofstream o(f, std::ios::binary);
    o << "S " << subs.size() << "\n";
    for (size_t s = 0; s < subs.size(); s++) {
      o << "D " << s << " " << st.done[s] << " " << st.nontriv[s] << " " << st.discarded[s] << "\n";
      for (auto& l : st.labels[s]) o << "L " << s << " " << l.second << " " << l.first << "\n";
      for (auto& h : st.distinct[s]) o << "H " << s << " " << h << "\n";
      for (auto& x : st.samples[s]) o << "X " << s << " " << jsonStr(x) << "\n";
    }
    for (auto& k : st.knowns) o << "K " << k.second << " " << k.first << "\n";
  }

  // ---- running one explicit choice sequence in a forked child
  struct Outcome {
    bool failed{false};
    bool hang{false};
    bool internal{false};
    std::string msg, notes;
    std::vector<uint64_t> choices;
  };
  Outcome runForked(size_t s, const std::vector<uint64_t>& ch, bool notes, double timeout, unsigned slotId = 0) {
    Slot* slot = slots[workers + slotId];
    slot->finished = 0;
    slot->failed = 0;
    slot->nChoices = 0;
    slot->msg[0] = 0;
    slot->notes[0] = 0;
    slot->deadline = 0;
    std::string err = gScratchRoot + "/errR" + std::to_string(slotId);
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      childSetup(1000 + slotId, err);
      gScratchN = (uint64_t)getpid() * 1000000;
      Case c;
      c.prefix_ = ch;
      c.replay_ = true;
      c.notes_ = notes;
      int rc = runCase(s, c, slot, nullptr);
      slot->finished = 1;
      _exit(rc == 1 ? 10 : 0);
    }
    Outcome o;
    double start = now();
    int stt = 0;
    while (true) {
      pid_t r = waitpid(p, &stt, WNOHANG);
      if (r == p) break;
      double lim = std::max(timeout, (double)slot->deadline);
      if (now() - start > lim) {
        kill(-p, SIGKILL);
        kill(p, SIGKILL);
        waitpid(p, &stt, 0);
        o.hang = true;
        break;
      }
      usleep(now() - start < 0.05 ? 200 : 3000);
    }
    kill(-p, SIGKILL);  // stray grandchildren of the case
    if (getenv("PBT_ERR")) {  // debugging: everything the replayed case printed
      std::ifstream i(err);
      std::ofstream(getenv("PBT_ERR")) << i.rdbuf();
    }
    rmTree(gScratchRoot + "/w" + std::to_string(1000 + slotId));
    o.notes = slot->notes;
    uint64_t n = std::min<uint64_t>((uint64_t)slot->nChoices, (uint64_t)kMaxChoices);
    o.choices.assign(slot->choices, slot->choices + n);
    if (o.hang) {
      o.failed = subs[s].hangIsFailure;
      o.msg = "case did not terminate within its time limit";
    } else if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0) {
      o.failed = false;
    } else if (WIFEXITED(stt) && WEXITSTATUS(stt) == 10) {
      o.failed = true;
      o.msg = slot->msg;
    } else if (WIFEXITED(stt) && WEXITSTATUS(stt) == 3) {
      o.internal = true;
    } else {
      o.failed = true;
      std::ostringstream m;
      if (WIFSIGNALED(stt)) m << "process killed by signal " << WTERMSIG(stt) << " (" << strsignal(WTERMSIG(stt)) << ")";
      else m << "process exited with status " << WEXITSTATUS(stt);
      if (WIFSIGNALED(stt) && WTERMSIG(stt) == SIGKILL) o.internal = true;  // e.g. out of memory: inconclusive
      m << "\n" << tail(err);
      o.msg = m.str();
    }
    if (o.internal) o.failed = false;
    return o;
  }
  static std::string tail(const std::string& f) {
    std::ifstream i(f);
    std::string all((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
    // prefer the sanitizer / CHECK line
    size_t p = all.find("ERROR: AddressSanitizer");
    if (p == std::string::npos) p = all.find("runtime error:");
    if (p == std::string::npos) p = all.find("Check failed");
    if (p != std::string::npos) {
      size_t b = all.rfind('\n', p);
      b = b == std::string::npos ? 0 : b + 1;
      return all.substr(b, 3000);
    }
    if (all.size() > 2500) all = all.substr(all.size() - 2500);
    return all;
  }

  static bool less(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  }

  std::vector<uint64_t> shrink(size_t s, std::vector<uint64_t> best, Outcome& bestO, double budgetS) {
    double end = now() + budgetS;
    double to = bestO.hang ? subs[s].caseTimeout : subs[s].caseTimeout;
    int tries = 0;
    auto attempt = [&](const std::vector<uint64_t>& cand) {
      if (now() > end) return false;
      tries++;
      int reps = subs[s].concurrent ? 3 : 1;
      for (int k = 0; k < reps; k++) {
        Outcome o = runForked(s, cand, true, to);
        if (o.failed) {
          // use the choices actually consumed (drops an unused tail)
          if (!o.choices.empty() || cand.empty()) {
            std::vector<uint64_t> used = o.choices;
            if (less(used, best)) {
              best = used;
              bestO = o;
              return true;
            }
          }
          return false;
        }
      }
      return false;
    };
    if (bestO.hang && to > 20) return best;  // too slow to shrink
    bool progress = true;
    while (progress && now() < end) {
      progress = false;
      // trailing zeros are implied
      // delete blocks
      for (size_t k = std::min<size_t>(best.size(), 64); k >= 1; k = k > 8 ? k / 2 : k - 1) {
        size_t i = best.size() >= k ? best.size() - k + 1 : 0;
        while (i > 0 && now() < end) {
          i--;
          if (i + k > best.size()) continue;
          std::vector<uint64_t> c(best);
          c.erase(c.begin() + i, c.begin() + i + k);
          if (attempt(c)) {
            progress = true;
          } else if (k <= 8 && i > 0 && c.size() >= i && c[i - 1] > 0) {
            // deletion together with decrementing the length choice before it
            c[i - 1]--;
            if (attempt(c)) progress = true;
          }
          if (i > best.size()) i = best.size();
        }
        if (k == 1) break;
      }
      // zero out blocks
      for (size_t k : {8, 4, 2, 1}) {
        for (size_t i = 0; i + k <= best.size() && now() < end; i += k) {
          bool nz = false;
          for (size_t j = i; j < i + k; j++) nz |= best[j] != 0;
          if (!nz) continue;
          std::vector<uint64_t> c(best);
          for (size_t j = i; j < i + k; j++) c[j] = 0;
          if (attempt(c)) progress = true;
        }
      }
      // minimise each value by binary search
      for (size_t i = 0; i < best.size() && now() < end; i++) {
        if (best[i] == 0) continue;
        uint64_t lo = 0, hi = best[i];
        while (lo < hi && now() < end && i < best.size()) {
          uint64_t mid = lo + (hi - lo) / 2;
          std::vector<uint64_t> c(best);
          c[i] = mid;
          if (attempt(c)) {
            progress = true;
            if (i >= best.size()) break;
            hi = best[i];
          } else {
            lo = mid + 1;
          }
        }
      }
    }
    fprintf(stderr, "shrink: %d candidates\n", tries);
    return best;
  }

  std::string writeReplay(size_t s, const std::vector<uint64_t>& ch, const Outcome& o, uint64_t index) {
    mkdir(replayDir.c_str(), 0777);
    std::string f = replayDir + "/" + property + "-" + subs[s].name + ".replay";
    std::ofstream out(f);
    out << "property " << property << "\nsub " << subs[s].name << "\nseed " << seed << "\nindex " << index << "\nchoices " << ch.size();
    for (auto v : ch) out << " " << v;
    out << "\n# failure: " << oneLine(o.msg) << "\n";
    std::istringstream n(o.notes);
    std::string l;
    while (std::getline(n, l)) out << "# " << l << "\n";
    std::istringstream m(o.msg);
    while (std::getline(m, l)) out << "#! " << l << "\n";
    return f;
  }
  static std::string oneLine(const std::string& s) {
    size_t p = s.find('\n');
    return p == std::string::npos ? s : s.substr(0, p);
  }

  int replay() {
    std::ifstream i(replayFile);
    if (!i) {
      fprintf(stderr, "cannot read %s\n", replayFile.c_str());
      return 3;
    }
    std::string line, sub;
    std::vector<uint64_t> ch;
    while (std::getline(i, line)) {
      std::istringstream l(line);
      std::string k;
      l >> k;
      if (k == "sub") l >> sub;
      if (k == "choices") {
        size_t n;
        l >> n;
        uint64_t v;
        while (n-- && l >> v) ch.push_back(v);
      }
    }
    for (size_t s = 0; s < subs.size(); s++) {
      if (subs[s].name != sub) continue;
      int reps = subs[s].concurrent ? 10 : 1;
      for (int k = 0; k < reps; k++) {
        Outcome o = runForked(s, ch, true, subs[s].caseTimeout);
        printf("%s", o.notes.c_str());
        if (o.failed) {
          printf("FAILED: %s\nVIOLATION property=%s replay=%s\n", o.msg.c_str(), property.c_str(), replayFile.c_str());
          return 1;
        }
      }
      printf("replay passes\n");
      return 0;
    }
    fprintf(stderr, "unknown sub-property %s\n", sub.c_str());
    return 3;
  }

  int run() {
    t0 = now();
    std::string base = "/tmp/wdtv.XXXXXX";
    std::vector<char> b(base.begin(), base.end());
    b.push_back(0);
    if (!mkdtemp(b.data())) {
      perror("mkdtemp");
      return 3;
    }
    gScratchRoot = b.data();
    chmod(gScratchRoot.c_str(), 0777);
    for (unsigned w = 0; w < workers + 1; w++) slots.push_back(mkSlot());
    int rc;
    if (!replayFile.empty()) rc = replay();
    else rc = explore();
    rmTree(gScratchRoot);
    return rc;
  }

  int explore() {
    struct W {
      pid_t pid{-1};
      bool done{false};
      int restarts{0};
      std::vector<uint64_t> next;
    };
    std::vector<W> ws(workers);
    auto start = [&](unsigned w) {
      slots[w]->finished = 0;
      slots[w]->failed = 0;
      slots[w]->started = 0;
      fflush(stdout);
      pid_t p = fork();
      if (p == 0) workerMain(w, ws[w].next);
      ws[w].pid = p;
    };
    for (unsigned w = 0; w < workers; w++) {
      ws[w].next.resize(subs.size());
      for (size_t s = 0; s < subs.size(); s++) {
        unsigned st = strideOf(s);
        ws[w].next[s] = w < st ? w : ~0ULL / 2;
      }
      start(w);
    }
    uint64_t unconfirmed = 0, timeouts = 0;
    std::vector<std::string> unconfMsgs;
    bool violation = false;
    std::string vReplay, vMsg, vSub;
    double shrinkSpent = 0;
    unsigned live = workers;
    while (live > 0 && !violation) {
      usleep(2000);
      for (unsigned w = 0; w < workers && !violation; w++) {
        if (ws[w].done) continue;
        int stt = 0;
        pid_t r = waitpid(ws[w].pid, &stt, WNOHANG);
        bool hung = false;
        Slot* slot = slots[w];
        if (r == 0) {
          double st = slot->started, dl = slot->deadline;
          if (st > 0 && dl > 0 && now() - st > dl && slot->started == st) {
            hung = true;
            kill(-ws[w].pid, SIGKILL);
            kill(ws[w].pid, SIGKILL);
            waitpid(ws[w].pid, &stt, 0);
          } else {
            continue;
          }
        }
        kill(-ws[w].pid, SIGKILL);
        if (!hung && WIFEXITED(stt) && WEXITSTATUS(stt) == 0 && slot->finished) {
          ws[w].done = true;
          live--;
          continue;
        }
        if (!hung && WIFEXITED(stt) && WEXITSTATUS(stt) == 3) {
          fprintf(stderr, "worker setup failed\n%s\n", tail(gScratchRoot + "/err" + std::to_string(w)).c_str());
          for (auto& x : ws) if (!x.done) kill(x.pid, SIGKILL);
          return 3;
        }
        // a failing case
        size_t s = slot->sub;
        uint64_t idx = slot->index;
        Outcome o;
        o.failed = true;
        uint64_t n = std::min<uint64_t>((uint64_t)slot->nChoices, (uint64_t)kMaxChoices);
        o.choices.assign(slot->choices, slot->choices + n);
        o.hang = hung;
        o.notes = slot->notes;
        if (hung) {
          o.msg = "case did not terminate within its time limit";
          timeouts++;
        } else if (WIFEXITED(stt) && WEXITSTATUS(stt) == 10) o.msg = slot->msg;
        else {
          std::ostringstream m;
          if (WIFSIGNALED(stt)) m << "process killed by signal " << WTERMSIG(stt) << "\n";
          else m << "process exited with status " << WEXITSTATUS(stt) << "\n";
          m << tail(gScratchRoot + "/err" + std::to_string(w));
          o.msg = m.str();
        }
        fprintf(stderr, "candidate failure in %s case %llu (%zu choices): %s\n", subs[s].name.c_str(), (unsigned long long)idx, o.choices.size(),
                o.msg.substr(0, 1500).c_str());
        rmTree(gScratchRoot + "/w" + std::to_string(w) + "/");  // leftovers of the dead case are removed at the end
        // confirm the original sequence first
        int need = 1, reps = subs[s].concurrent ? 10 : 3, got = 0;
        if (!subs[s].concurrent) need = 3;
        Outcome conf;
        for (int k = 0; k < reps && got < need; k++) {
          Outcome x = runForked(s, o.choices, true, subs[s].caseTimeout);
          if (x.failed) {
            got++;
            conf = x;
          } else if (!subs[s].concurrent && got == 0 && k >= 1) {
            break;
          }
        }
        if (got >= need) {
          std::vector<uint64_t> ch = o.choices;
          if (!conf.choices.empty()) ch = conf.choices;
          double before = now();
          // others keep exploring only when this is not a violation; stop them now
          for (unsigned v = 0; v < workers; v++) {
            if (v != w && !ws[v].done) {
              kill(-ws[v].pid, SIGKILL);
              kill(ws[v].pid, SIGKILL);
              waitpid(ws[v].pid, nullptr, 0);
            }
          }
          ch = shrink(s, ch, conf, shrinkBudget);
          shrinkSpent += now() - before;
          // confirm the shrunk sequence; fall back to the original
          int g2 = 0;
          Outcome c2;
          for (int k = 0; k < reps && g2 < need; k++) {
            Outcome x = runForked(s, ch, true, subs[s].caseTimeout);
            if (x.failed) {
              g2++;
              c2 = x;
            }
          }
          if (g2 >= need) conf = c2;
          else ch = o.choices;
          vReplay = writeReplay(s, ch, conf, idx);
          vMsg = conf.msg;
          vSub = subs[s].name;
          fprintf(stderr, "%s\n", conf.notes.c_str());
          violation = true;
        } else {
          unconfirmed++;
          unconfMsgs.push_back(subs[s].name + " case " + std::to_string(idx) + ": " + oneLine(o.msg).substr(0, 300));
          fprintf(stderr, "not reproduced (%d/%d): ignored\n", got, reps);
          if (getenv("PBT_UNCONF")) fprintf(stderr, "%s\n%s\n", (system(("cp " + writeReplay(s, o.choices, o, idx) + " /tmp/unconf." + std::to_string(idx)).c_str()), "saved"), tail(gScratchRoot + "/err" + std::to_string(w)).c_str());
          ws[w].restarts++;
          // resume after the failing case
          unsigned stv = strideOf(s);
          // every sub's progress: approximate by the same least-progress rule up to idx
          double p = (double)idx / count(s);
          for (size_t q = 0; q < subs.size(); q++) {
            if (!active(q) || ws[w].next[q] >= count(q)) continue;
            while (ws[w].next[q] < count(q) && (double)ws[w].next[q] / count(q) < p) ws[w].next[q] += strideOf(q);
          }
          while (ws[w].next[s] <= idx) ws[w].next[s] += stv;
          start(w);
        }
      }
    }
    for (auto& x : ws) {
      if (!x.done && x.pid > 0) {
        kill(-x.pid, SIGKILL);
        kill(x.pid, SIGKILL);
      }
    }
    // merge statistics
    WStats tot(subs.size());
    for (unsigned w = 0; w < workers; w++) {
      std::string d = gScratchRoot + "/w" + std::to_string(w);
      DIR* dir = opendir(d.c_str());
      if (!dir) continue;
      struct dirent* e;
      while ((e = readdir(dir))) {
        std::string n = e->d_name;
        if (n.compare(0, 6, "stats.") != 0) continue;
        std::ifstream i(d + "/" + n);
        std::string line;
        while (std::getline(i, line)) {
          std::istringstream l(line);
          std::string k;
          l >> k;
          size_t s;
          if (k == "D") {
            uint64_t a, b2, c2;
            l >> s >> a >> b2 >> c2;
            tot.done[s] += a;
            tot.nontriv[s] += b2;
            tot.discarded[s] += c2;
          } else if (k == "L") {
            uint64_t a;
            std::string name;
            l >> s >> a;
            std::getline(l, name);
            tot.labels[s][name.substr(1)] += a;
          } else if (k == "H") {
            uint64_t h;
            l >> s >> h;
            tot.distinct[s].insert(h);
          } else if (k == "X") {
            std::string x;
            l >> s;
            std::getline(l, x);
            if (tot.samples[s].size() < 2) tot.samples[s].push_back(x.substr(1));
          } else if (k == "K") {
            uint64_t a;
            std::string name;
            l >> a;
            std::getline(l, name);
            tot.knowns[name.substr(1)] += a;
          }
        }
      }
      closedir(dir);
    }
    uint64_t total = 0, dn = 0;
    std::ostringstream js;
    js << "{\"property\":" << jsonStr(property) << ",\"seed\":" << seed << ",\"subs\":[";
    bool capped = false;
    bool first = true;
    for (size_t s = 0; s < subs.size(); s++) {
      if (!active(s)) continue;
      total += tot.done[s];
      dn += tot.distinct[s].size();
      if (tot.done[s] < count(s)) capped = true;
      js << (first ? "" : ",") << "{\"name\":" << jsonStr(subs[s].name) << ",\"rule\":" << jsonStr(subs[s].rule) << ",\"planned\":" << count(s)
         << ",\"evaluations\":" << tot.done[s] << ",\"nontrivial\":" << tot.nontriv[s] << ",\"distinct_nontrivial\":" << tot.distinct[s].size()
         << ",\"discarded\":" << tot.discarded[s] << ",\"labels\":{";
      bool f2 = true;
      for (auto& l : tot.labels[s]) {
        js << (f2 ? "" : ",") << jsonStr(l.first) << ":" << l.second;
        f2 = false;
      }
      js << "},\"samples\":[";
      for (size_t k = 0; k < tot.samples[s].size(); k++) js << (k ? "," : "") << tot.samples[s][k];
      js << "]}";
      first = false;
    }
    js << "],\"evaluations\":" << total << ",\"distinct_nontrivial\":" << dn << ",\"unconfirmed\":" << unconfirmed << ",\"unconfirmed_msgs\":[";
    for (size_t k = 0; k < unconfMsgs.size(); k++) js << (k ? "," : "") << jsonStr(unconfMsgs[k]);
    js << "],\"hangs\":" << timeouts << ",\"capped\":" << (capped ? "true" : "false") << ",\"known\":{";
    first = true;
    for (auto& k : tot.knowns) {
      js << (first ? "" : ",") << jsonStr(k.first) << ":" << k.second;
      first = false;
    }
    js << "},\"violation\":" << (violation ? "true" : "false");
    if (violation) js << ",\"replay\":" << jsonStr(vReplay) << ",\"message\":" << jsonStr(vMsg) << ",\"sub\":" << jsonStr(vSub);
    js << ",\"wall_s\":" << (now() - t0) << "}\n";
    if (!outFile.empty()) {
      std::ofstream o(outFile);
      o << js.str();
    } else {
      std::cout << js.str();
    }
    if (violation) {
      std::cout << "failure: " << vMsg << "\n";
      std::cout << "VIOLATION property=" << property << " replay=" << vReplay << std::endl;
      return 1;
    }
    return 0;
  }
};

int main(int argc, char** argv, const std::string& property, const std::vector<Sub>& subs) {
  Engine e;
  e.property = property;
  e.subs = subs;
  if (const char* s = getenv("VERIF_SEED")) e.seed = strtoull(s, nullptr, 10);
  if (const char* t = getenv("VERIF_TIER")) e.thorough = std::string(t) == "thorough";
  e.replayDir = "/tmp";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
    if (a == "--seed") e.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--thorough") e.thorough = true;
    else if (a == "--workers") e.workers = atoi(val().c_str());
    else if (a == "--budget") e.budget = atof(val().c_str());
    else if (a == "--shrink") e.shrinkBudget = atof(val().c_str());
    else if (a == "--out") e.outFile = val();
    else if (a == "--replay") e.replayFile = val();
    else if (a == "--replaydir") e.replayDir = val();
    else if (a == "--only") e.only = val();
    else if (a == "--scale") e.scale = atof(val().c_str());
    else if (a == "--keep-root") e.drop = false;
    else if (a == "--known") gKnown.insert(val());
    else {
      fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 3;
    }
  }
  return e.run();
}
}  // namespace pbt
