// pbt.cc -- runner of the property-based testing engine: forked workers, crash
// detection, replay, shrinking.
#include "pbt.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <exception>
#include <set>
#include <unordered_set>

namespace pbt {

std::vector<Prop> &Registry() { static std::vector<Prop> r; return r; }

std::string strf(const char *fmt, ...) {
  char buf[4096];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  return buf;
}

uint64_t Case::upto(uint64_t max) {
  uint64_t v;
  if (replaying) {
    v = pos < replay.size() ? std::min(replay[pos], max) : 0;
    ++pos;
  } else {
    v = rng.upto(max);
  }
  if (rec && *rec_len < rec_cap) { rec[*rec_len] = v; *rec_len = *rec_len + 1; }
  hash = (hash ^ v) * 1099511628211ull; hash ^= hash >> 29;
  return v;
}

namespace {

const size_t kRecCap = 1 << 20;
const size_t kMsgCap = 16384;
const size_t kDescCap = 3000;
const int kSamplesPerWorker = 2;
const size_t kHashCap = 1 << 20;
const int kMaxLabels = 96;

struct LabelSlot { char name[56]; uint64_t n; };

struct Shm {
  volatile uint64_t rec_len;
  volatile int64_t cur_case;      // case being run, -1: none
  volatile int64_t cases, nontrivial, discards;
  volatile int failed;            // 1: property failed (msg holds why)
  volatile int done;              // 1: the worker ended normally
  volatile uint64_t nhash;
  int nlabels;
  int nsamples;
  char msg[kMsgCap];
  char notes[kMsgCap];
  char sample[kSamplesPerWorker][kDescCap];
  LabelSlot labels[kMaxLabels];
  uint64_t rec[kRecCap];
  uint64_t hashes[kHashCap];
};

Shm *NewShm() {
  void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return static_cast<Shm *>(p);
}

double Now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

std::string g_tmp;       // scratch root of this run
std::string g_replay_dir = ".";
int g_workers = 8;
uint64_t g_seed = 1;
bool g_thorough = false;
double g_time_cap = 240;
double g_shrink_cap = 45;
double g_scale = 1.0;

void RmTree(const std::string &path) {
  // Only ever called on directories below g_tmp, which this process created
  if (g_tmp.empty() || path.compare(0, g_tmp.size(), g_tmp) != 0) return;
  DIR *d = opendir(path.c_str());
  if (d) {
    while (dirent *e = readdir(d)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      std::string p = path + "/" + n;
      struct stat st;
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) RmTree(p); else unlink(p.c_str());
    }
    closedir(d);
  }
  rmdir(path.c_str());
}

void CopyStr(char *dst, size_t cap, const std::string &s) {
  size_t n = std::min(cap - 1, s.size());
  memcpy(dst, s.data(), n); dst[n] = 0;
}

uint64_t CaseSeed(const Prop &p, int64_t idx) {
  uint64_t h = 1469598103934665603ull ^ (g_seed * 0x9E3779B97F4A7C15ull);
  for (char ch : p.name) h = (h ^ static_cast<unsigned char>(ch)) * 1099511628211ull;
  h ^= static_cast<uint64_t>(idx) * 0xD6E8FEB86659FD93ull; h ^= h >> 32;
  return h * 0x9E3779B97F4A7C15ull;
}

void ArmTimer(int sec) {
  itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &tv, nullptr);
}

// Runs one case in this process. Returns 0 pass, 1 failed, 2 discarded
int RunCase(const Prop &p, Case *c, Shm *shm) {
  if (!c->tmpdir.empty()) { RmTree(c->tmpdir); mkdir(c->tmpdir.c_str(), 0700); }   // nothing of another case
  ArmTimer(p.cpu_limit);
  int rc = 0;
  try {
    p.fn(*c);
  } catch (const Failure &f) {
    CopyStr(shm->msg, kMsgCap, f.msg); rc = 1;
  } catch (const Discard &) {
    rc = 2;
  } catch (const std::exception &e) {
    CopyStr(shm->msg, kMsgCap, std::string("uncaught exception from the code under test: ") + e.what()); rc = 1;
  }
  ArmTimer(0);
  if (rc == 1) CopyStr(shm->notes, kMsgCap, c->notes);
  return rc;
}

void InitCase(Case *c, Shm *shm, const std::string &dir) {
  c->rec = shm->rec; c->rec_len = &shm->rec_len; c->rec_cap = kRecCap;
  shm->rec_len = 0; c->tmpdir = dir; c->thorough = g_thorough;
}

void RedirectOutput(const std::string &errfile) {
  int n = open("/dev/null", O_RDWR);
  dup2(n, 0); dup2(n, 1); close(n);
  int e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (e >= 0) { dup2(e, 2); close(e); }
}

void WorkerMain(const Prop &p, int w, int64_t ncases, double deadline, Shm *shm, const std::string &dir) {
  for (int64_t i = w; i < ncases; i += g_workers) {
    if (Now() > deadline) break;
    Case c; InitCase(&c, shm, dir);
    c.rng = Rng(CaseSeed(p, i));
    shm->cur_case = i;
    int rc = RunCase(p, &c, shm);
    if (rc == 1) { shm->failed = 1; break; }
    if (rc == 2) { shm->discards = shm->discards + 1; continue; }
    shm->cases = shm->cases + 1;
    for (auto &kv : c.labels) {
      int k = 0;
      for (; k < shm->nlabels; ++k) if (kv.first.compare(0, 55, shm->labels[k].name) == 0) break;
      if (k == shm->nlabels) {
        if (k == kMaxLabels) continue;
        CopyStr(shm->labels[k].name, 56, kv.first); shm->nlabels++;
      }
      shm->labels[k].n += 1;
    }
    if (c.is_nontrivial) {
      shm->nontrivial = shm->nontrivial + 1;
      if (shm->nhash < kHashCap) { shm->hashes[shm->nhash] = c.hash; shm->nhash = shm->nhash + 1; }
      if (shm->nsamples < kSamplesPerWorker && !c.notes.empty()) {
        CopyStr(shm->sample[shm->nsamples], kDescCap, strf("case %ld: ", static_cast<long>(i)) + c.notes); shm->nsamples++;
      }
    }
    shm->cur_case = -1;
  }
  shm->done = 1;
  _exit(0);
}

std::string ReadTail(const std::string &path, size_t max) {
  std::string s; FILE *f = fopen(path.c_str(), "r"); if (!f) return s;
  char buf[4096]; size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) { s.append(buf, n); if (s.size() > 400000) break; }
  fclose(f);
  // Sanitizer reports start with ERROR; keep the head of the report
  size_t at = s.find("ERROR: AddressSanitizer");
  if (at == std::string::npos) at = s.find("runtime error:");
  if (at == std::string::npos) at = s.find("Assertion");
  if (at != std::string::npos) { size_t b = s.rfind('\n', at); s = s.substr(b == std::string::npos ? 0 : b + 1); return s.substr(0, max); }
  return s.size() > max ? s.substr(s.size() - max) : s;
}

enum Outcome { kPass, kFail, kCrash, kTimeout, kKilled };

struct Result { Outcome o; std::string msg; std::string notes; std::vector<uint64_t> rec; };

std::string WaitMsg(int st) {
  if (WIFSIGNALED(st)) return strf("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
  return strf("process ended with status %d", WEXITSTATUS(st));
}

Outcome Classify(int st) {
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGPROF) return kTimeout;
    if (WTERMSIG(st) == SIGKILL) return kKilled;
  }
  return kCrash;
}

pid_t g_child = 0;

// Runs one case from a choice sequence in a forked child
Result RunSeq(const Prop &p, const std::vector<uint64_t> &seq, double wall_cap = 600) {
  static Shm *shm = NewShm();
  shm->failed = shm->done = 0; shm->rec_len = 0; shm->msg[0] = shm->notes[0] = 0;
  std::string dir = g_tmp + "/s", err = g_tmp + "/s.err";
  RmTree(dir); mkdir(dir.c_str(), 0700);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    RedirectOutput(err);
    Case c; InitCase(&c, shm, dir); c.replaying = true; c.replay = seq;
    int rc = RunCase(p, &c, shm);
    if (rc == 1) shm->failed = 1;
    shm->done = 1;
    _exit(0);
  }
  g_child = pid;
  int st = 0;
  double t0 = Now();
  while (true) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    double el = Now() - t0;
    if (el > wall_cap) { kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
    usleep(el < 0.02 ? 300 : 5000);
  }
  g_child = 0;
  Result res; res.o = kPass;
  res.rec.assign(shm->rec, shm->rec + shm->rec_len);
  if (shm->done) {
    if (shm->failed) { res.o = kFail; res.msg = shm->msg; res.notes = shm->notes; }
  } else {
    res.o = Classify(st);
    res.msg = (res.o == kTimeout ? "did not terminate within the CPU limit: " : "crash: ") + WaitMsg(st) + "\n" + ReadTail(err, 3000);
  }
  RmTree(dir);
  return res;
}

bool IsBad(const Result &r) { return r.o == kFail || r.o == kCrash || r.o == kTimeout; }

// Shrinks the choice sequence while the case keeps failing
std::vector<uint64_t> Shrink(const Prop &p, std::vector<uint64_t> best, Result *res) {
  double deadline = Now() + g_shrink_cap;
  bool timeout_kind = res->o == kTimeout;
  if (timeout_kind) return best;    // every attempt would cost the whole limit
  auto try_seq = [&](const std::vector<uint64_t> &s) {
    if (Now() > deadline) return false;
    Result r = RunSeq(p, s, 30);
    if (r.o != kFail && r.o != kCrash) return false;
    std::vector<uint64_t> used = r.rec;
    if (used.size() > s.size()) used.resize(s.size());   // trailing zeros are implied
    while (!used.empty() && used.back() == 0) used.pop_back();
    if (used.size() < best.size() || (used.size() == best.size() && used < best)) { best = used; *res = r; return true; }
    return false;
  };
  bool progress = true;
  while (progress && Now() < deadline) {
    progress = false;
    for (size_t blk = std::max<size_t>(1, best.size() / 2); blk >= 1 && Now() < deadline; blk /= 2) {
      for (size_t i = 0; i + blk <= best.size() && Now() < deadline;) {
        std::vector<uint64_t> s(best.begin(), best.begin() + i);
        s.insert(s.end(), best.begin() + i + blk, best.end());
        if (try_seq(s)) { progress = true; continue; }
        i += blk;
      }
      if (blk == 1) break;
    }
    for (size_t i = 0; i < best.size() && Now() < deadline; ++i) {
      if (best[i] == 0) continue;
      std::vector<uint64_t> s = best; s[i] = 0;
      if (try_seq(s)) { progress = true; continue; }
      uint64_t lo = 0, hi = best[i];
      while (hi - lo > 1 && i < best.size() && Now() < deadline) {
        uint64_t mid = lo + (hi - lo) / 2;
        s = best; s[i] = mid;
        if (try_seq(s)) { progress = true; hi = mid; } else lo = mid;
        if (i >= best.size() || best[i] != hi) break;
      }
    }
  }
  return best;
}

std::string JsonStr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch >= 127) o += strf("\\u%04x", ch);
    else o += ch;
  }
  return o + "\"";
}

std::string WriteReplay(const Prop &p, const std::string &mode, const std::vector<uint64_t> &seq,
                        const std::string &extra, const Result &r) {
  std::string path = g_replay_dir + "/" + p.check + "-" + p.name + ".replay";
  FILE *f = fopen(path.c_str(), "w");
  if (!f) { path = "/tmp/" + p.check + "-" + p.name + ".replay"; f = fopen(path.c_str(), "w"); }
  if (!f) return path;
  fprintf(f, "pbt-replay 1\nproperty %s\nname %s\nmode %s\n%s", p.check.c_str(), p.name.c_str(), mode.c_str(), extra.c_str());
  fprintf(f, "choices %zu\n", seq.size());
  for (size_t i = 0; i < seq.size(); ++i) fprintf(f, "%llu%c", static_cast<unsigned long long>(seq[i]), i % 16 == 15 ? '\n' : ' ');
  fprintf(f, "\nend\n--- what failed ---\n%s\n--- case ---\n%s\n", r.msg.c_str(), r.notes.c_str());
  fclose(f);
  return path;
}

// Re-runs the prefix of a worker (failures that need state left by earlier cases)
Result RunPrefix(const Prop &p, int w, int64_t last) {
  static Shm *shm = NewShm();
  memset(shm, 0, offsetof(Shm, rec)); shm->cur_case = -1;
  std::string dir = g_tmp + "/p", err = g_tmp + "/p.err";
  RmTree(dir); mkdir(dir.c_str(), 0700);
  pid_t pid = fork();
  if (pid == 0) { RedirectOutput(err); WorkerMain(p, w, last + 1, Now() + 300, shm, dir); }
  int st; waitpid(pid, &st, 0);
  Result res; res.o = kPass;
  if (shm->done) { if (shm->failed) { res.o = kFail; res.msg = shm->msg; res.notes = shm->notes; } }
  else { res.o = Classify(st); res.msg = WaitMsg(st) + "\n" + ReadTail(err, 3000); }
  RmTree(dir);
  return res;
}

struct Report { std::string json; bool failed = false; };

Report RunProp(const Prop &p) {
  double t0 = Now();
  int64_t ncases = static_cast<int64_t>((g_thorough ? p.thorough_cases : p.quick_cases) * g_scale);
  if (ncases < 1) ncases = 1;
  std::vector<Shm *> shm(g_workers);
  std::vector<pid_t> pids(g_workers);
  std::vector<int> alive(g_workers, 1);
  fflush(stdout);
  for (int w = 0; w < g_workers; ++w) {
    shm[w] = NewShm(); shm[w]->cur_case = -1;
    std::string dir = g_tmp + strf("/w%d", w);
    RmTree(dir); mkdir(dir.c_str(), 0700);
    pids[w] = fork();
    if (pids[w] == 0) { RedirectOutput(g_tmp + strf("/w%d.err", w)); WorkerMain(p, w, ncases, t0 + g_time_cap, shm[w], dir); }
  }
  int left = g_workers, bad = -1, bad_st = 0, inconclusive = 0;
  // Wall limit: generous, only for a worker that is blocked without using CPU
  double hard = t0 + g_time_cap + p.cpu_limit * 4 + 60;
  while (left > 0) {
    for (int w = 0; w < g_workers; ++w) {
      if (!alive[w]) continue;
      int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
      if (r != pids[w]) continue;
      alive[w] = 0; --left;
      bool ok = shm[w]->done && !shm[w]->failed;
      if (!ok) {
        if (!shm[w]->done && Classify(st) == kKilled) { inconclusive++; continue; }
        if (bad < 0) { bad = w; bad_st = st; for (int v = 0; v < g_workers; ++v) if (alive[v]) kill(pids[v], SIGKILL); }
      }
    }
    if (Now() > hard) for (int v = 0; v < g_workers; ++v) if (alive[v]) { kill(pids[v], SIGKILL); }
    usleep(2000);
  }
  Report rep;
  int64_t cases = 0, nt = 0, disc = 0; std::unordered_set<uint64_t> hs; std::map<std::string, uint64_t> labels; std::vector<std::string> samples;
  for (int w = 0; w < g_workers; ++w) {
    Shm *s = shm[w];
    cases += s->cases; nt += s->nontrivial; disc += s->discards;
    for (uint64_t i = 0; i < s->nhash; ++i) hs.insert(s->hashes[i]);
    for (int i = 0; i < s->nlabels; ++i) labels[s->labels[i].name] += s->labels[i].n;
    for (int i = 0; i < s->nsamples; ++i) if (samples.size() < 4) samples.push_back(s->sample[i]);
  }
  std::string viol;
  if (bad >= 0) {
    Shm *s = shm[bad];
    int64_t idx = s->cur_case;
    std::vector<uint64_t> seq(s->rec, s->rec + s->rec_len);
    Result first; first.o = s->failed ? kFail : Classify(bad_st);
    first.msg = s->failed ? std::string(s->msg) : WaitMsg(bad_st) + "\n" + ReadTail(g_tmp + strf("/w%d.err", bad), 3000);
    first.notes = s->notes;
    Result r = RunSeq(p, seq);
    std::string path;
    bool real = true;
    if (IsBad(r)) {
      // Reproduced from the recorded choices alone: shrink it
      Result again = RunSeq(p, seq);
      std::vector<uint64_t> best = seq;
      if (IsBad(again)) best = Shrink(p, seq, &r);
      Result fin = RunSeq(p, best);
      if (IsBad(fin)) r = fin;
      path = WriteReplay(p, "seq", best, "", r);
    } else {
      Result pr; pr.o = kPass;
      if (first.o != kTimeout) pr = RunPrefix(p, bad, idx);
      if (IsBad(pr)) {
        r = pr;
        path = WriteReplay(p, "prefix", seq, strf("seed %llu\nworkers %d\nworker %d\nlast %lld\n",
                           static_cast<unsigned long long>(g_seed), g_workers, bad, static_cast<long long>(idx)), r);
      } else {
        // Try harder to reproduce (schedules)
        for (int k = 0; k < 10 && !IsBad(r); ++k) r = RunSeq(p, seq);
        if (!IsBad(r)) {
          if (first.o == kTimeout) real = false;    // a slow machine, not a violation
          r = first; r.msg = "(not reproduced by a replay) " + r.msg;
        }
        path = WriteReplay(p, "seq", seq, "", r);
      }
    }
    if (real) {
      rep.failed = true;
      if (r.msg.size() > 1500) r.msg = r.msg.substr(0, 1500) + " ... (" + std::to_string(r.msg.size()) + " bytes)";
      if (r.notes.size() > 1500) r.notes = r.notes.substr(0, 1500) + " ...";
      viol = ", \"violation\": {\"replay\": " + JsonStr(path) + ", \"message\": " + JsonStr(r.msg) + ", \"notes\": " + JsonStr(r.notes) + "}";
      printf("FAILED %s %s\n  %s\n  case: %s\n  replay: %s\n", p.check.c_str(), p.name.c_str(), r.msg.c_str(), r.notes.c_str(), path.c_str());
    } else {
      inconclusive++;
    }
  }
  std::string j = strf("{\"name\": %s, \"cases\": %lld, \"planned\": %lld, \"nontrivial\": %lld, \"distinct_nontrivial\": %zu, \"discarded\": %lld, \"inconclusive_workers\": %d, \"wall_s\": %.2f, \"labels\": {",
                       JsonStr(p.name).c_str(), static_cast<long long>(cases), static_cast<long long>(ncases), static_cast<long long>(nt), hs.size(), static_cast<long long>(disc), inconclusive, Now() - t0);
  bool firstl = true;
  for (auto &kv : labels) { if (!firstl) j += ", "; firstl = false; j += JsonStr(kv.first) + strf(": %llu", static_cast<unsigned long long>(kv.second)); }
  j += "}, \"samples\": [";
  for (size_t i = 0; i < samples.size(); ++i) { if (i) j += ", "; j += JsonStr(samples[i]); }
  j += "]" + viol + "}";
  rep.json = j;
  for (int w = 0; w < g_workers; ++w) munmap(shm[w], sizeof(Shm));
  return rep;
}

int DoReplay(const std::string &path) {
  FILE *f = fopen(path.c_str(), "r");
  if (!f) { perror(path.c_str()); return 3; }
  char check[64], name[128], mode[32]; unsigned long long seed = 1; int workers = 8, worker = 0; long long last = 0; size_t n = 0;
  if (fscanf(f, "pbt-replay 1 property %63s name %127s mode %31s", check, name, mode) != 3) { fclose(f); return 3; }
  if (strcmp(mode, "prefix") == 0 && fscanf(f, " seed %llu workers %d worker %d last %lld", &seed, &workers, &worker, &last) != 4) { fclose(f); return 3; }
  if (fscanf(f, " choices %zu", &n) != 1) { fclose(f); return 3; }
  std::vector<uint64_t> seq(n);
  for (auto &x : seq) { unsigned long long v = 0; if (fscanf(f, "%llu", &v) != 1) break; x = v; }
  fclose(f);
  for (const Prop &p : Registry()) {
    if (p.name != name) continue;
    Result r;
    if (strcmp(mode, "prefix") == 0) { g_seed = seed; g_workers = workers; r = RunPrefix(p, worker, last); }
    else for (int k = 0; k < 5; ++k) { r = RunSeq(p, seq); if (IsBad(r)) break; }
    if (IsBad(r)) { printf("REPRODUCED %s %s\n%s\ncase: %s\n", p.check.c_str(), name, r.msg.c_str(), r.notes.c_str()); return 1; }
    printf("not reproduced\n"); return 0;
  }
  return 3;
}

void OnTerm(int) { if (g_child > 0) kill(g_child, SIGKILL); kill(0, SIGTERM); _exit(3); }

}  // namespace

int Main(int argc, char **argv) {
  std::string check, out, only, replay;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--check") check = val();
    else if (a == "--only") only = val();
    else if (a == "--seed") g_seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--tier") g_thorough = val() == "thorough";
    else if (a == "--workers") g_workers = atoi(val().c_str());
    else if (a == "--time-cap") g_time_cap = atof(val().c_str());
    else if (a == "--scale") g_scale = atof(val().c_str());
    else if (a == "--out") out = val();
    else if (a == "--replay-dir") g_replay_dir = val();
    else if (a == "--replay") replay = val();
    else if (a == "--list") { for (auto &p : Registry()) printf("%s %s\n", p.check.c_str(), p.name.c_str()); return 0; }
  }
  char tmpl[256];
  const char *base = getenv("TMPDIR");
  snprintf(tmpl, sizeof tmpl, "%s/pbt.XXXXXX", base && *base ? base : "/tmp");
  if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; }
  g_tmp = tmpl;
  chmod(tmpl, 0755);
  struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  int rc = 0;
  if (!replay.empty()) {
    rc = DoReplay(replay);
  } else {
    std::string all = "[";
    int n = 0;
    for (const Prop &p : Registry()) {
      if (!check.empty() && p.check != check) continue;
      if (!only.empty() && p.name != only) continue;
      Report r = RunProp(p);
      if (n++) all += ",\n";
      all += r.json;
      if (r.failed) rc = 1;
    }
    all += "]\n";
    if (n == 0) rc = 3;
    if (!out.empty()) { FILE *f = fopen(out.c_str(), "w"); if (f) { fputs(all.c_str(), f); fclose(f); } }
    else fputs(all.c_str(), stdout);
  }
  RmTree(g_tmp);
  return rc;
}

}  // namespace pbt

int main(int argc, char **argv) { return pbt::Main(argc, argv); }
