// variant: asan
// libs: bench
// extra: common_proc.cpp
// tools: asan/wdt_gen_files
// C04: generated data follows the statistical model.
#include "common_gen.h"
using pbt::Case;
typedef unsigned char U;
static std::string produce(Case& c, const GenModel& m, const GenRun& r) {
  std::string dir = c.scratch(), sf = dir + "/stats";
  writeAll(sf, m.bytes());
  ProcResult a = runProc(genArgs(r, dir, sf), {}, 100);
  PBT_CHECK(c, !a.timedOut && a.status == 0, "exit " << a.status << " " << a.err.substr(a.err.size() > 900 ? a.err.size() - 900 : 0));
  std::string d = readAll(dir + "/gen.data");
  PBT_EQ(c, d.size(), r.seg() * r.threads, "size of the generated file");
  return d;
}
static void chain(Case& c) {
  GenModel m = genModel(c);
  GenRun r = genRun(c, m);
  auto succ = m.succ();
  std::set<U> firsts, seconds;
  for (auto& e : succ) {
    firsts.insert(e.first);
    for (auto& f : e.second) seconds.insert(f.first);
  }
  c.note([&] { return showRun(r) + " model " + m.show(); });
  std::string d = produce(c, m, r);
  size_t seg = r.seg(), restarts = 0, links = 0;
  for (size_t t = 0; t < r.threads; t++) {
    std::string s = d.substr(t * seg, seg);
    size_t L = r.start.size();
    PBT_CHECK(c, s.compare(0, L, r.start) == 0, "segment " << t << " begins with " << pbt::show(s.substr(0, L + 4)) << " instead of the start string " << pbt::show(r.start));
    if (L == 0) PBT_CHECK(c, firsts.count((U)s[0]), "segment " << t << " begins with byte " << pbt::show(s.substr(0, 1)) << " that begins no pair of the model");
    for (size_t i = L ? L - 1 : 0; i + 1 < s.size(); i++) {
      U p = s[i], q = s[i + 1];
      auto it = succ.find(p);
      if (it != succ.end()) {
        PBT_CHECK(c, it->second.count(q), "segment " << t << " (length " << seg << ") offset " << i + 1 << ": " << pbt::show(std::string{(char)p, (char)q}) << " is not in the model");
        links++;
        continue;
      }
      restarts++;
      bool fromReset = !r.reset.empty() && succ.count((U)r.reset[0]) && !(L && i == L - 1);
      if (fromReset) {
        PBT_CHECK(c, succ[(U)r.reset[0]].count(q), "segment " << t << " offset " << i + 1 << ": restart after dead end " << pbt::show(std::string(1, (char)p)) << " with "
                                                              << pbt::show(std::string(1, (char)q)) << " which does not follow the reset character");
      } else {
        PBT_CHECK(c, firsts.count(q) || seconds.count(q), "segment " << t << " offset " << i + 1 << ": restart with " << pbt::show(std::string(1, (char)q)));
      }
    }
  }
  if (links >= 10 && seg > r.blk() && m.entries.size() >= 3) c.nontrivial();
  if (restarts) c.label("dead ends");
  if (restarts && !r.reset.empty()) c.label("dead ends with reset character");
  if (!r.start.empty()) c.label("start string");
}
// frequencies
static void weights(Case& c) {
  GenModel m;
  std::vector<std::pair<U, uint32_t>> w;
  size_t k = c.range(2, 8);
  uint32_t tot = 0;
  for (size_t i = 0; i < k; i++) {
    uint32_t x = (uint32_t)c.logRange(1, 30);
    w.push_back({(U)(c.flip() ? 'b' + i : 200 + i), x});
    tot += x;
  }
  int kind = (int)c.draw(2);
  for (auto& e : w) {
    if (kind == 0) {  // hub and spokes: a -> x -> a
      // a weight may be split over several entries
      uint32_t part = (uint32_t)c.draw(e.second);
      if (part) m.entries.push_back({{'a', e.first}, part});
      if (e.second - part) m.entries.push_back({{'a', e.first}, e.second - part});
      m.entries.push_back({{e.first, 'a'}, (uint32_t)c.range(1, 3)});
    } else {  // dead ends: every pair restarts the chain
      m.entries.push_back({{e.first, 'a'}, e.second});
    }
  }
  if (kind == 2) m.entries.push_back({{'R', w[0].first}, 1}), m.entries.push_back({{'R', w[1].first}, 3});
  c.shuffle(m.entries);
  GenRun r;
  r.threads = c.range(1, 4);
  r.total = 60000 * r.threads;
  char b[64];
  snprintf(b, sizeof b, "%.17g", (double)r.total / 1048576.0);
  r.mb = b;
  r.total = (size_t)(strtod(b, nullptr) * 1024 * 1024);
  r.block = c.logRange(500, 70000);
  if (kind == 2) r.reset = "R";
  c.note([&] { return showRun(r) + " model " + m.show() + (kind == 0 ? " hub" : kind == 1 ? " restarts" : " restarts from reset character"); });
  c.label(kind == 0 ? "successor weights" : kind == 1 ? "restart weights" : "reset successor weights");
  std::string d = produce(c, m, r);
  std::map<U, double> p;
  if (kind == 0) {
    for (auto& e : w) p[e.first] = (double)e.second / tot;
  } else if (kind == 1) {
    for (auto& e : w) p[e.first] = (double)e.second / tot;
  } else {
    p[w[0].first] = 0.25;
    p[w[1].first] = 0.75;
  }
  if (tot <= 200) c.nontrivial();
  size_t seg = r.seg();
  // every thread segment separately
  for (size_t t = 0; t < r.threads; t++) {
    std::map<U, size_t> n;
    size_t N = 0;
    for (size_t i = t * seg; i + 1 < (t + 1) * seg; i++) {
      if (d[i] != 'a') continue;
      U q = d[i + 1];
      if (q == 'a' || q == 'R') continue;
      n[q]++;
      N++;
    }
    PBT_CHECK(c, N > 10000, "segment " << t << " has only " << N << " transitions");
    for (auto& e : p) {
      double exp = N * e.second, tol = 6 * std::sqrt(exp * (1 - e.second)) + 0.03 * exp + 5;
      PBT_CHECK(c, std::fabs(n[e.first] - exp) <= tol, "segment " << t << ": successor " << pbt::show(std::string(1, (char)e.first)) << " of weight share " << e.second << " chosen "
                                                                << n[e.first] << " times out of " << N << ", expected " << exp << " +- " << tol);
    }
  }
}
int main(int argc, char** argv) {
  return pbt::main(argc, argv, "C04", {
      {"chain", chain, 2500, 25000, 120, false, "at least 10 model-driven transitions, three entries and several blocks per thread"},
      {"weights", weights, 300, 3000, 120, false, "a model with at least two weighted successors and total weight up to 200"},
  });
}
