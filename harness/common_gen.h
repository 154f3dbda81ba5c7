#pragma once
#include <fcntl.h>
#include <sys/stat.h>
#include <cmath>
#include <map>
#include <set>
#include "common_proc.h"
#include "pbt.h"
// Inputs and reference model for wdt_gen_files.
struct GenModel {
  std::vector<std::pair<std::pair<unsigned char, unsigned char>, uint32_t>> entries;
  uint64_t total() const {
    uint64_t t = 0;
    for (auto& e : entries) t += e.second;
    return t;
  }
  // successor weights
  std::map<unsigned char, std::map<unsigned char, uint64_t>> succ() const {
    std::map<unsigned char, std::map<unsigned char, uint64_t>> m;
    for (auto& e : entries)
      if (e.second) m[e.first.first][e.first.second] += e.second;
    return m;
  }
  std::string bytes() const {
    std::string s;
    for (auto& e : entries) {
      s += (char)e.first.first;
      s += (char)e.first.second;
      for (int k = 0; k < 4; k++) s += (char)(e.second >> (8 * k));
    }
    return s;
  }
  std::string show() const {
    std::string r;
    for (size_t i = 0; i < entries.size() && i < 40; i++)
      r += pbt::show(std::string{(char)entries[i].first.first, (char)entries[i].first.second}) + "x" + std::to_string(entries[i].second) + " ";
    if (entries.size() > 40) r += "... (" + std::to_string(entries.size()) + " entries)";
    return r;
  }
};
struct GenRun {
  size_t total, threads, block;  // requested bytes
  std::string mb, start, reset;
  size_t seg() const { return total / threads; }
  size_t blk() const { return std::min(seg(), block); }
};
inline unsigned char genByte(pbt::Case& c, const std::string& alpha) { return alpha.empty() ? (unsigned char)c.draw(255) : (unsigned char)alpha[c.draw(alpha.size() - 1)]; }
inline GenModel genModel(pbt::Case& c, uint32_t maxWeight = 50) {
  GenModel m;
  std::string alpha;
  switch (c.draw(3)) {
    case 0: alpha = "ab"; break;
    case 1: alpha = "abcdef"; break;
    case 2: alpha = std::string("a\0\x80\xff.\n", 6); break;
    default: break;
  }
  size_t n = c.logRange(1, 60);
  for (size_t i = 0; i < n; i++) {
    unsigned char a = genByte(c, alpha), b = genByte(c, alpha);
    uint32_t w = c.chance(1, 12) ? 0 : (uint32_t)c.logRange(1, maxWeight);
    m.entries.push_back({{a, b}, w});
  }
  if (m.total() == 0) m.entries[0].second = 1;
  return m;
}
inline GenRun genRun(pbt::Case& c, const GenModel& m, size_t maxSeg = 6000) {
  GenRun r;
  r.threads = c.logRange(1, 24);
  size_t seg = c.logRange(1, maxSeg);
  r.total = seg * r.threads + c.draw(r.threads - 1);
  switch (c.draw(3)) {
    case 0: r.block = c.logRange(1, 64); break;
    case 1: r.block = c.logRange(1, 20000); break;
    case 2: r.block = std::max<int64_t>(1, (int64_t)seg + c.range(-2, 2)); break;
    default: r.block = std::max<size_t>(1, seg / (1 + c.draw(4))); break;
  }
  char b[64];
  snprintf(b, sizeof b, "%.17g", (double)r.total / 1048576.0);
  r.mb = b;
  r.total = (size_t)(strtod(b, nullptr) * 1024 * 1024);
  if (r.total < r.threads) r.total = r.threads;
  // bytes of the model that can appear on a command line
  std::string ok;
  std::set<char> seen;
  for (auto& e : m.entries)
    for (unsigned char ch : {e.first.first, e.first.second})
      if (ch && seen.insert((char)ch).second) ok += (char)ch;
  ok += 'z';
  if (c.chance(1, 2)) r.start = c.str(1, std::max<size_t>(1, std::min<size_t>(r.blk(), 12)), ok);
  if (r.start.size() > r.blk()) r.start.resize(r.blk());
  if (c.chance(1, 2)) r.reset = std::string(1, ok[c.draw(ok.size() - 1)]);
  return r;
}
inline std::vector<std::string> genArgs(const GenRun& r, const std::string& dir, const std::string& stats, const std::string& file = "gen.data") {
  std::vector<std::string> a{toolPath("asan/wdt_gen_files"), "-gen_size_mb=" + r.mb, "-num_threads=" + std::to_string(r.threads),
                             "-gen_block_size=" + std::to_string(r.block), "-directory=" + dir, "-filename=" + file, "-stats_source=" + stats};
  if (!r.start.empty()) a.push_back("-start=" + r.start);
  if (!r.reset.empty()) a.push_back("-reset_char=" + r.reset);
  return a;
}
inline std::string showRun(const GenRun& r) {
  return "-gen_size_mb=" + r.mb + " (" + std::to_string(r.total) + " bytes) -num_threads=" + std::to_string(r.threads) + " -gen_block_size=" + std::to_string(r.block) +
         (r.start.empty() ? "" : " -start=" + pbt::show(r.start)) + (r.reset.empty() ? "" : " -reset_char=" + pbt::show(r.reset));
}
