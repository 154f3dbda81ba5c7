#pragma once
#include <string>
#include <vector>
// Runs a program with the given stdin (written in the given pieces), collects stdout/stderr.
struct ProcResult {
  int status{-1};      // exit status, or 1000+signal
  bool timedOut{false};
  std::string out, err;
  bool ok() const { return status == 0 && !timedOut; }
};
ProcResult runProc(const std::vector<std::string>& argv, const std::vector<std::string>& in = {}, double timeout = 30, const std::string& cwd = "");
std::string toolPath(const std::string& name);  // e.g. "asan/wdt_gen_stats"
std::string readAll(const std::string& path, bool* ok = nullptr);
void writeAll(const std::string& path, const std::string& data);
// sparse files beyond the default file size limit of a case
#include <sys/resource.h>
inline void allowHugeFiles() {
  struct rlimit rl;
  getrlimit(RLIMIT_FSIZE, &rl);
  rl.rlim_cur = rl.rlim_max;
  setrlimit(RLIMIT_FSIZE, &rl);
}
