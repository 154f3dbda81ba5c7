#include "common_proc.h"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <cstring>
#include <fstream>
#include <iterator>
#include <stdexcept>
static double tnow() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
std::string toolPath(const std::string& n) {
  const char* b = getenv("VERIF_BUILD_DIR");
  return std::string(b ? b : "/verif/build") + "/" + n;
}
std::string readAll(const std::string& p, bool* ok) {
  std::ifstream i(p, std::ios::binary);
  if (ok) *ok = i.good();
  return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
}
void writeAll(const std::string& p, const std::string& d) {
  std::ofstream o(p, std::ios::binary | std::ios::trunc);
  o.write(d.data(), d.size());
  o.close();
  if (!o.good()) throw std::runtime_error("harness: cannot write " + p);
}
ProcResult runProc(const std::vector<std::string>& argv, const std::vector<std::string>& in, double timeout, const std::string& cwd) {
  int pi[2], po[2], pe[2];
  if (pipe2(pi, O_CLOEXEC) || pipe2(po, O_CLOEXEC) || pipe2(pe, O_CLOEXEC)) throw std::runtime_error("harness: pipe failed");
  pid_t p = fork();
  if (p < 0) throw std::runtime_error("harness: fork failed");
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    dup2(pi[0], 0);
    dup2(po[1], 1);
    dup2(pe[1], 2);
    if (!cwd.empty() && chdir(cwd.c_str())) _exit(126);
    unsetenv("GLOG_minloglevel");
    std::vector<char*> a;
    for (auto& s : argv) a.push_back(const_cast<char*>(s.c_str()));
    a.push_back(nullptr);
    execv(a[0], a.data());
    _exit(127);
  }
  close(pi[0]);
  close(po[1]);
  close(pe[1]);
  ProcResult r;
  double end = tnow() + timeout;
  size_t piece = 0, off = 0;
  bool inOpen = true, oOpen = true, eOpen = true;
  fcntl(pi[1], F_SETFL, O_NONBLOCK);
  while (inOpen || oOpen || eOpen) {
    while (inOpen && piece < in.size() && off >= in[piece].size()) {
      piece++;
      off = 0;
    }
    if (inOpen && piece >= in.size()) {
      close(pi[1]);
      inOpen = false;
      continue;
    }
    struct pollfd f[3];
    int n = 0, ii = -1, oi = -1, ei = -1;
    if (inOpen) {
      ii = n;
      f[n++] = {pi[1], POLLOUT, 0};
    }
    if (oOpen) {
      oi = n;
      f[n++] = {po[0], POLLIN, 0};
    }
    if (eOpen) {
      ei = n;
      f[n++] = {pe[0], POLLIN, 0};
    }
    double left = end - tnow();
    if (left <= 0) {
      r.timedOut = true;
      kill(p, SIGKILL);
      break;
    }
    poll(f, n, (int)(left * 1000) + 1);
    char b[65536];
    if (ii >= 0 && f[ii].revents) {
      ssize_t w = write(pi[1], in[piece].data() + off, in[piece].size() - off);
      if (w > 0) off += w;
      else if (w < 0 && errno != EAGAIN && errno != EINTR) {
        close(pi[1]);
        inOpen = false;
      }
    }
    if (oi >= 0 && f[oi].revents) {
      ssize_t k = read(po[0], b, sizeof b);
      if (k > 0) r.out.append(b, k);
      else if (k == 0) oOpen = false;
    }
    if (ei >= 0 && f[ei].revents) {
      ssize_t k = read(pe[0], b, sizeof b);
      if (k > 0) {
        if (r.err.size() < (1 << 20)) r.err.append(b, k);
      } else if (k == 0) eOpen = false;
    }
  }
  if (inOpen) close(pi[1]);
  close(po[0]);
  close(pe[0]);
  int st = 0;
  while (waitpid(p, &st, WNOHANG) == 0) {
    if (tnow() > end) {
      r.timedOut = true;
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      break;
    }
    usleep(200);
  }
  r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  return r;
}
