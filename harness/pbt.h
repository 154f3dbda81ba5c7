// pbt.h - a small property-based testing engine.
//
// A property is a function void(Case&) that draws its input from a recorded
// sequence of integer choices and asserts an oracle.  Cases run in forked
// worker processes, so a crash, a sanitizer abort, a failed internal CHECK or a
// hang is attributed to the exact case.  A failing choice sequence is shrunk
// (shorter / smaller sequences first), confirmed by replaying it, and written
// to a replay file which `--replay FILE` re-executes.
//
// Case i of sub-property s draws from a generator seeded by (seed, s, i) only,
// so a run is a pure function of the code under test and VERIF_SEED.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure : std::runtime_error {
  explicit Failure(const std::string& m) : std::runtime_error(m) {}
};
// thrown to drop a case that turns out to be outside the domain
struct Discard {};

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? (uint64_t)(((unsigned __int128)next() * n) >> 64) : 0; }
};

uint64_t mix(uint64_t a, uint64_t b);
uint64_t hashBytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ULL);

struct Slot;  // shared memory, one per worker

class Case {
 public:
  // ---- choices ----
  // raw draw in [0, max]; 'sampler' supplies the random value when generating
  uint64_t draw(uint64_t max);
  uint64_t draw(uint64_t max, const std::function<uint64_t(Rng&)>& sampler);
  // uniform in [lo, hi]; shrinks towards lo
  int64_t range(int64_t lo, int64_t hi);
  // in [lo, hi], small values much more likely (log-uniform); shrinks towards lo
  int64_t logRange(int64_t lo, int64_t hi);
  bool flip() { return draw(1); }
  // true with probability num/den; shrinks to false
  bool chance(unsigned num, unsigned den);
  // full-range 64 bit, biased to edges (bit-length uniform, near powers of 2)
  uint64_t u64();
  int64_t i64() { return zig(u64()); }
  template <class T>
  const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
  template <class T>
  T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size() - 1)); }
  // index with given weights, shrinks to 0
  size_t weighted(const std::vector<unsigned>& w);
  // arbitrary bytes
  std::string bytes(size_t minLen, size_t maxLen);
  std::string bytesN(size_t n);
  // deterministic pseudo-random content of length n from one drawn seed (cheap)
  std::string blob(size_t n);
  // string over an alphabet
  std::string str(size_t minLen, size_t maxLen, const std::string& alphabet);
  template <class T>
  void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[i - 1 - draw(i - 1)]);
  }
  // ---- reporting ----
  void label(const std::string& l);        // distribution counter
  void nontrivial() { nontrivial_ = true; }
  // extra distinctness key (defaults to the hash of the choices)
  bool wantNotes() const { return notes_; }
  template <class F>
  void note(F&& f) { if (notes_) addNote(f()); }
  void addNote(const std::string& s);
  [[noreturn]] void fail(const std::string& m);
  [[noreturn]] void discard() { throw Discard(); }
  // A known, recorded finding: counted, printed as KNOWN-FINDING by check.py.
  // Returns true if `key` is listed for this property in known_findings.json.
  bool known(const std::string& key);
  // ---- resources ----
  // fresh empty directory for this case, removed when the case ends
  std::string scratch();
  uint64_t index() const { return index_; }
  Rng sideRng() { return Rng(draw(~0ULL)); }
  void onEnd(std::function<void()> f) { end_.push_back(std::move(f)); }
  // Largest time this case may take before it counts as hung (seconds).
  void setDeadline(double s);
  static int64_t zig(uint64_t v) { return (int64_t)(v >> 1) ^ -(int64_t)(v & 1); }

 private:
  friend struct Engine;
  std::vector<uint64_t> prefix_;
  size_t pos_{0};
  bool replay_{false};
  bool notes_{false};
  bool nontrivial_{false};
  uint64_t index_{0};
  Rng rng_{0};
  Slot* slot_{nullptr};
  std::string notesText_;
  std::map<std::string, uint64_t>* labels_{nullptr};
  std::map<std::string, uint64_t>* knowns_{nullptr};
  std::string scratchDir_;
  std::vector<std::function<void()>> end_;
};

struct Sub {
  std::string name;
  std::function<void(Case&)> fn;
  uint64_t quick{1000};
  uint64_t thorough{10000};
  double caseTimeout{60};  // seconds before a case counts as hung
  bool concurrent{false};  // outcome may depend on thread schedule / timing
  std::string rule;        // what makes a case non-trivial
  unsigned maxWorkers{64}; // run in at most this many workers
  bool hangIsFailure{true};
};

int main(int argc, char** argv, const std::string& property, const std::vector<Sub>& subs);

template <class A, class B>
std::string cmpStr(const A& a, const B& b) {
  std::ostringstream o;
  o << a << " vs " << b;
  return o.str();
}
std::string show(const std::string& bytes, size_t max = 200);
}  // namespace pbt

#define PBT_CHECK(c, cond, ...)                                                        \
  do {                                                                                 \
    if (!(cond)) {                                                                     \
      std::ostringstream _o;                                                           \
      _o << __VA_ARGS__;                                                               \
      (c).fail(std::string(#cond " is false: ") + _o.str());                           \
    }                                                                                  \
  } while (0)
#define PBT_EQ(c, a, b, ...)                                                           \
  do {                                                                                 \
    auto _a = (a);                                                                     \
    auto _b = (b);                                                                     \
    if (!(_a == _b)) {                                                                 \
      std::ostringstream _o;                                                           \
      _o << #a " = " << _a << " but " #b " = " << _b << " ; " << __VA_ARGS__;          \
      (c).fail(_o.str());                                                              \
    }                                                                                  \
  } while (0)
