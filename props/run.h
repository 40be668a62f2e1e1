// Runs a program with its output in a file, under a CPU limit
#ifndef VERIF_RUN_H_
#define VERIF_RUN_H_
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <string>
#include <vector>
#include "pbt.h"

namespace gen {
struct Ran { bool exited = false; int code = -1, signal = 0; };
inline Ran RunProgram(const std::vector<std::string> &argv, const std::string &in, const std::string &out, const std::string &err = "/dev/null", int nofile = 0, const std::string &cwd = "", long fsize = -1) {
  std::vector<char *> a; for (auto &s : argv) a.push_back(const_cast<char *>(s.c_str())); a.push_back(nullptr);
  pid_t p = fork(); Ran r;
  if (p == 0) {
    struct rlimit l; l.rlim_cur = l.rlim_max = 60; setrlimit(RLIMIT_CPU, &l); l.rlim_cur = l.rlim_max = fsize < 0 ? 256u << 20 : fsize; setrlimit(RLIMIT_FSIZE, &l); if (nofile) { l.rlim_cur = l.rlim_max = nofile; setrlimit(RLIMIT_NOFILE, &l); }
    int i = open(in.empty() ? "/dev/null" : in.c_str(), O_RDONLY), o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (i < 0 || o < 0 || e < 0 || (!cwd.empty() && chdir(cwd.c_str()) != 0)) _exit(126);
    dup2(i, 0); dup2(o, 1); dup2(e, 2); for (int f = 3; f < 64; ++f) close(f);
    execvp(a[0], a.data()); _exit(127);
  }
  if (p < 0) throw pbt::Discard();
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st)) { r.exited = true; r.code = WEXITSTATUS(st); } else if (WIFSIGNALED(st)) r.signal = WTERMSIG(st);
  return r;
}
}  // namespace gen
#endif
