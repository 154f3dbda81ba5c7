// variant: asan
// libs: bench
// extra: common_proc.cpp
// tools: asan/wdt_gen_stats
// C02: wdt_gen_stats reports exactly the adjacent byte pairs of its input.
#include <wdt/bench/Bigram.h>
#include <map>
#include "common_bigram.h"
#include "common_proc.h"
#include "pbt.h"
using pbt::Case;
typedef std::pair<unsigned char, unsigned char> UP;
static std::string sh(UP p) { return pbt::show(std::string{(char)p.first, (char)p.second}); }

static std::string genInput(Case& c) {
  switch (c.weighted({4, 3, 2, 1, 1})) {
    case 0: return c.bytes(0, 40);
    case 1: return c.str(0, 400, "ab");
    case 2: return c.str(0, 2000, std::string("a\"\\\0\x80\xff\n 07", 10));
    case 3: return c.blob(c.logRange(0, 200000));
    default: {
      // long runs: counts that do not fit one or two bytes
      std::string s;
      size_t runs = c.range(1, 4);
      for (size_t i = 0; i < runs; i++) s += std::string(c.logRange(1, 150000), (char)c.draw(255));
      return s;
    }
  }
}
static std::vector<std::string> split(Case& c, const std::string& s) {
  std::vector<std::string> r;
  size_t n = c.logRange(0, 6), pos = 0;
  for (size_t i = 0; i < n && pos < s.size(); i++) {
    size_t k = c.logRange(1, s.size() - pos);
    r.push_back(s.substr(pos, k));
    pos += k;
  }
  r.push_back(s.substr(pos));
  return r;
}
static void exact(Case& c) {
  std::string in = genInput(c);
  bool wrap = c.flip();
  auto pieces = split(c, in);
  c.note([&] { return "input " + pbt::show(in, 300) + (wrap ? " -wrap" : "") + " in " + std::to_string(pieces.size()) + " pieces"; });
  std::map<UP, uint64_t> want;
  for (size_t i = 1; i < in.size(); i++) want[UP(in[i - 1], in[i])]++;
  if (wrap && !in.empty()) want[UP(in.back(), in[0])]++;
  bool high = false, tie = false;
  for (unsigned char ch : in) high |= ch >= 0x80;
  std::map<uint64_t, int> cc;
  for (auto& e : want) tie |= cc[e.second]++ > 0;
  if (want.size() >= 3 && tie) c.nontrivial();
  if (high) c.label("bytes >= 0x80");
  if (in.size() < 2) c.label("length 0 or 1");
  if (in.size() > 65536) c.label("more than a pipe buffer");
  std::vector<std::string> args{toolPath("asan/wdt_gen_stats")};
  if (wrap) args.push_back("-wrap");
  // binary
  auto ab = args;
  ab.push_back("-binary");
  ProcResult rb = runProc(ab, pieces, 60);
  PBT_CHECK(c, !rb.timedOut, "binary run does not end");
  PBT_CHECK(c, rb.status == 0, "binary run exits " << rb.status << " " << rb.err.substr(0, 600));
  PBT_CHECK(c, rb.out.size() % 6 == 0, "binary output has " << rb.out.size() << " bytes");
  std::vector<std::pair<UP, uint64_t>> bin;
  for (size_t i = 0; i + 6 <= rb.out.size(); i += 6) {
    const unsigned char* p = (const unsigned char*)rb.out.data() + i;
    bin.emplace_back(UP(p[0], p[1]), p[2] | (p[3] << 8) | (p[4] << 16) | ((uint64_t)p[5] << 24));
  }
  auto compare = [&](const std::vector<std::pair<UP, uint64_t>>& got, const char* what) {
    std::map<UP, uint64_t> g;
    for (auto& e : got) {
      PBT_CHECK(c, g.emplace(e.first, e.second).second, what << " lists " << sh(e.first) << " twice");
      auto it = want.find(e.first);
      PBT_CHECK(c, it != want.end(), what << " lists " << sh(e.first) << " which does not occur");
      PBT_CHECK(c, it->second == e.second, what << " counts " << sh(e.first) << " " << e.second << " times, it occurs " << it->second << " times");
    }
    for (auto& e : want) PBT_CHECK(c, g.count(e.first), what << " misses " << sh(e.first) << " which occurs " << e.second << " times");
    for (size_t i = 1; i < got.size(); i++) {
      PBT_CHECK(c, got[i - 1].second >= got[i].second, what << " is not in descending count order at entry " << i);
      if (got[i - 1].second == got[i].second) {
        Bigram x((char)got[i - 1].first.first, (char)got[i - 1].first.second), y((char)got[i].first.first, (char)got[i].first.second);
        PBT_CHECK(c, x < y, what << " entries " << sh(got[i - 1].first) << " and " << sh(got[i].first) << " with equal counts are not in ascending order");
      }
    }
  };
  compare(bin, "binary table");
  // text
  ProcResult rt = runProc(args, {in}, 60);
  PBT_CHECK(c, rt.status == 0, "text run exits " << rt.status << " " << rt.err.substr(0, 600));
  std::vector<std::pair<UP, uint64_t>> txt;
  size_t pos = 0;
  while (pos < rt.out.size()) {
    size_t nl = rt.out.find('\n', pos);
    PBT_CHECK(c, nl != std::string::npos, "text output does not end with a newline");
    std::string l = rt.out.substr(pos, nl - pos);
    pos = nl + 1;
    size_t comma = l.rfind(", ");
    bool good = l.size() > 8 && l[0] == '\t' && l[1] == '{' && comma != std::string::npos && l.compare(l.size() - 2, 2, "},") == 0;
    PBT_CHECK(c, good, "text line " << pbt::show(l));
    auto d = decodePair(l.substr(2, comma - 2));
    PBT_CHECK(c, d.size() == 1, "text line " << pbt::show(l) << " does not determine a pair");
    std::string num = l.substr(comma + 2, l.size() - 2 - comma - 2);
    PBT_CHECK(c, !num.empty() && num.find_first_not_of("0123456789") == std::string::npos && num.size() < 12, "count in " << pbt::show(l));
    txt.emplace_back(d[0], strtoull(num.c_str(), nullptr, 10));
  }
  compare(txt, "text table");
  PBT_CHECK(c, txt == bin, "text and binary tables list entries in different order");
}
int main(int argc, char** argv) {
  return pbt::main(argc, argv, "C02", {
      {"table", exact, 3000, 40000, 120, false, "at least three distinct pairs, some with equal counts"},
  });
}
