// variant: asan
// libs: core
// C08: received-range bookkeeping is exact set arithmetic.
#include <wdt/Protocol.h>
#include <climits>
#include <set>
#include "pbt.h"
using namespace facebook::wdt;
using pbt::Case;
typedef __int128 W;
struct Gen {
  std::vector<Interval> in;
  bool small;
};
static std::string showIv(const std::vector<Interval>& v) {
  std::ostringstream o;
  for (auto& i : v) o << "[" << i.start_ << "," << i.end_ << ") ";
  return o.str();
}
// coverage of a point, directly from the inputs
static bool in(const std::vector<Interval>& v, int64_t p) {
  for (auto& i : v)
    if (i.start_ <= p && p < i.end_) return true;
  return false;
}
static void setAlgebra(Case& c) {
  size_t n = c.logRange(0, c.chance(1, 10) ? 200 : 14);
  int how = (int)c.draw(3);
  int64_t span = how == 0 ? 12 : how == 1 ? 100 : how == 2 ? (int64_t)1 << 33 : INT64_MAX;
  std::vector<Interval> v;
  for (size_t i = 0; i < n; i++) {
    int64_t a = how >= 2 && !v.empty() && c.flip() ? (c.flip() ? v[c.draw(v.size() - 1)].end_ : v[c.draw(v.size() - 1)].start_) : c.range(0, span - 1);
    int64_t d = c.range(-1, 1);
    if (how >= 2 && a + 0 <= INT64_MAX - 1 && a + d >= 0) a += d;
    int64_t b = c.chance(1, 12) ? a : how >= 2 && c.flip() ? std::max<int64_t>(a, c.range(0, span)) : (a > span - 1 ? a : a + c.range(0, std::max<int64_t>(0, std::min<int64_t>(span - a, span / 3 + 1))));
    v.push_back(Interval(a, b));
  }
  std::string nm = "f";
  int64_t recorded = span;
  FileChunksInfo f(7, nm, recorded);
  for (auto& i : v) f.addChunk(i);
  int64_t size;
  int sk = (int)c.draw(3);
  if (sk == 0 || v.empty()) size = c.range(0, std::min<int64_t>(span, INT64_MAX - 40) + 20);
  else if (sk == 1) {
    size = v[c.draw(v.size() - 1)].end_;
    int64_t d = c.range(-2, 2);
    if (d < 0 ? size + d >= 0 : size <= INT64_MAX - d) size += d;
  } else if (sk == 2) size = v[c.draw(v.size() - 1)].start_;
  else {
    size = 0;
    for (auto& i : v) size = std::max(size, i.end_);
  }
  c.note([&] { return "chunks " + showIv(v) + " file size " + std::to_string(size); });
  // critical points: the coverage is constant between consecutive ones
  std::set<int64_t> pts{0, size};
  for (auto& i : v) pts.insert(i.start_), pts.insert(i.end_);
  f.mergeChunks();
  auto m = f.getChunks();
  for (auto& i : m) pts.insert(i.start_), pts.insert(i.end_);
  for (size_t i = 0; i < m.size(); i++) {
    PBT_CHECK(c, m[i].start_ <= m[i].end_, "merged " << showIv(m));
    if (i) PBT_CHECK(c, m[i - 1].end_ < m[i].start_, "merged ranges are not sorted, disjoint and non-adjacent: " << showIv(m) << " from " << showIv(v));
  }
  auto rem = f.getRemainingChunks(size);
  for (auto& i : rem) pts.insert(i.start_), pts.insert(i.end_);
  W distinct = 0;
  for (auto it = pts.begin(); it != pts.end(); ++it) {
    auto nx = std::next(it);
    int64_t p = *it;
    bool was = in(v, p);
    if (nx != pts.end() && was) distinct += (W)*nx - p;
    PBT_CHECK(c, was == in(m, p), "byte " << p << (was ? " was received but is not" : " was not received but is") << " in the merged ranges " << showIv(m) << " of " << showIv(v));
    bool want = p < size && !was;
    PBT_CHECK(c, want == in(rem, p), "byte " << p << (want ? " is missing but not" : " is not missing (received or beyond the file) but") << " in the remaining ranges " << showIv(rem) << " of a file of size " << size << " with "
                                             << showIv(v));
  }
  PBT_CHECK(c, (W)f.getTotalChunkSize() == distinct, "total size " << f.getTotalChunkSize() << " of merged " << showIv(m));
  for (size_t i = 0; i < rem.size(); i++) {
    PBT_CHECK(c, rem[i].start_ >= 0 && rem[i].start_ < rem[i].end_ && rem[i].end_ <= size, "remaining range outside the file or empty: " << showIv(rem) << " file size " << size << " received " << showIv(v));
    if (i) PBT_CHECK(c, rem[i - 1].end_ <= rem[i].start_, "remaining ranges not ascending: " << showIv(rem));
  }
  // idempotent, order independent
  f.mergeChunks();
  PBT_CHECK(c, f.getChunks() == m, "merging twice gives " << showIv(f.getChunks()) << " instead of " << showIv(m));
  FileChunksInfo g(7, nm, recorded);
  auto w = v;
  c.shuffle(w);
  size_t mid = w.empty() ? 0 : c.draw(w.size());
  for (size_t i = 0; i < w.size(); i++) {
    if (i == mid) g.mergeChunks();  // merging in between changes nothing
    g.addChunk(w[i]);
  }
  g.mergeChunks();
  PBT_CHECK(c, g.getChunks() == m, "order changes the result: " << showIv(g.getChunks()) << " instead of " << showIv(m));
  // fill the gaps: nothing remains
  for (auto& i : rem) g.addChunk(i);
  g.mergeChunks();
  PBT_CHECK(c, g.getRemainingChunks(size).empty(), "gaps remain after adding the remaining ranges");
  if (v.size() >= 3 && m.size() >= 2 && m.size() < v.size()) c.nontrivial();
}
int main(int argc, char** argv) {
  pbt::Sub s{"sets", setAlgebra, 150000, 4000000};
  s.rule = "at least three ranges that merge into at least two but fewer ranges";
  return pbt::main(argc, argv, "C08", {s});
}
