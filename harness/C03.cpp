// variant: asan
// libs: bench
// extra: common_proc.cpp
// tools: asan/wdt_gen_files
// C03: wdt_gen_files writes one file of exactly the requested size, reproducibly.
#include <dirent.h>
#include "common_gen.h"
using pbt::Case;
static std::map<std::string, std::string> dirState(const std::string& d) {
  std::map<std::string, std::string> r;
  DIR* dir = opendir(d.c_str());
  while (struct dirent* e = readdir(dir)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    r[n] = readAll(d + "/" + n);
  }
  closedir(dir);
  return r;
}
static void sizes(Case& c) {
  GenModel m = genModel(c);
  GenRun r = genRun(c, m);
  std::string tail;
  if (c.chance(1, 3)) tail = c.bytesN(c.range(1, 5));  // statistics ending inside an entry
  std::string stats = m.bytes();
  std::string dir = c.scratch() + "/out", sf = c.scratch() + "/stats";
  mkdir(dir.c_str(), 0777);
  writeAll(sf, stats);
  writeAll(sf + ".cut", stats + tail);
  std::string other = c.blob(c.logRange(0, 2000));
  writeAll(dir + "/other", other);
  size_t expect = r.seg() * r.threads;
  int pre = (int)c.draw(2);  // earlier file: none, shorter, longer
  std::string name = c.pick<std::string>({"gen.data", "x", "a b.bin"});
  if (pre == 1) writeAll(dir + "/" + name, std::string(expect / 2, 'Q'));
  if (pre == 2) writeAll(dir + "/" + name, std::string(expect + c.logRange(1, 5000), 'Q'));
  c.note([&] { return showRun(r) + " model " + m.show() + " cut tail " + std::to_string(tail.size()) + " bytes, earlier file " + (pre == 0 ? "none" : pre == 1 ? "shorter" : "longer"); });
  if (r.threads > 1 && r.seg() % r.blk() != 0 && r.seg() > r.blk()) c.nontrivial();
  if (!tail.empty()) c.label("statistics cut inside an entry");
  if (r.start.size() == r.blk()) c.label("start fills a block");
  c.label(pre == 0 ? "no earlier file" : pre == 1 ? "shorter earlier file" : "longer earlier file");
  // first run: whole statistics from a file
  ProcResult a = runProc(genArgs(r, dir, sf, name), {}, 100);
  PBT_CHECK(c, !a.timedOut, "run does not end");
  PBT_CHECK(c, a.status == 0, "exit " << a.status << " " << a.err.substr(a.err.size() > 900 ? a.err.size() - 900 : 0));
  auto st = dirState(dir);
  PBT_CHECK(c, st.count(name), "no file " << name);
  PBT_EQ(c, st[name].size(), expect, "size of the generated file");
  PBT_CHECK(c, st["other"] == other, "another file in the directory changed");
  PBT_EQ(c, st.size(), (size_t)2, "number of files in the directory");
  std::string first = st[name];
  // all bytes come from the model or the start string (no holes, no stale bytes)
  std::set<char> allowed(r.start.begin(), r.start.end());
  for (auto& e : m.entries)
    if (e.second) {
      allowed.insert((char)e.first.first);
      allowed.insert((char)e.first.second);
    }
  for (size_t i = 0; i < first.size(); i++) PBT_CHECK(c, allowed.count(first[i]), "byte " << i << " is " << (int)(unsigned char)first[i] << ", not in the model: not written?");
  // second run: other source, possibly with an incomplete last entry, on top of the first
  bool viaStdin = c.flip();
  std::string cut = stats + tail;
  std::vector<std::string> in;
  if (viaStdin) {
    size_t k = c.draw(cut.size());
    in = {cut.substr(0, k), cut.substr(k)};
  }
  std::string name2 = c.flip() ? name : "second";
  ProcResult b = runProc(genArgs(r, dir, viaStdin ? "-" : sf + ".cut", name2), in, 100);
  PBT_CHECK(c, b.status == 0 && !b.timedOut, "second run: exit " << b.status << " " << b.err.substr(b.err.size() > 900 ? b.err.size() - 900 : 0));
  std::string second = readAll(dir + "/" + name2);
  PBT_EQ(c, second.size(), expect, "size in the second run");
  for (size_t i = 0; i < first.size(); i++)
    PBT_CHECK(c, first[i] == second[i], "byte " << i << " differs between two runs with the same flags and the same complete statistics entries (" << (viaStdin ? "stdin" : "file") << ")");
}
int main(int argc, char** argv) {
  return pbt::main(argc, argv, "C03", {
      {"size", sizes, 2500, 25000, 250, false, "several threads and several blocks per thread with a partial last block"},
  });
}
