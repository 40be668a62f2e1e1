// pbt.h -- a small property-based testing engine.
//
// A property is a function void(Case&). It draws its input from the choice
// source of the case (Case::upto and everything built on it), runs the code
// under test and calls FAIL()/CHECK() when the oracle disagrees. Every draw is
// recorded, so a case is a sequence of integers: it is replayed by feeding the
// same integers, and shrunk by making the sequence shorter and smaller.
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_

#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

// xorshift-style generator, used for bulk data expanded from one drawn seed
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed): s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t upto(uint64_t max) { return max == UINT64_MAX ? next() : next() % (max + 1); }
  int range(int lo, int hi) { return lo + static_cast<int>(upto(static_cast<uint64_t>(hi) - lo)); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double gauss() {
    double u = unit(), v = unit();
    if (u < 1e-300) u = 1e-300;
    return sqrt(-2 * log(u)) * cos(6.283185307179586 * v);
  }
};

class Case {
 public:
  // -- choice source (shrinks towards 0 / lo / false / first) --
  uint64_t upto(uint64_t max);             // [0, max]
  int range(int lo, int hi) { return lo + static_cast<int>(upto(static_cast<uint64_t>(static_cast<int64_t>(hi) - lo))); }
  bool chance(int num, int den) { return upto(den - 1) >= static_cast<uint64_t>(den - num); }
  bool flip() { return upto(1) != 0; }
  template <typename T> const T &pick(const std::vector<T> &v) { return v[upto(v.size() - 1)]; }
  // index drawn with the given integer weights
  int weighted(const std::vector<int> &w) {
    uint64_t tot = 0; for (int x : w) tot += x;
    uint64_t r = upto(tot - 1);
    for (size_t i = 0; i < w.size(); ++i) { if (r < static_cast<uint64_t>(w[i])) return i; r -= w[i]; }
    return w.size() - 1;
  }
  double unit() { return upto(1 << 24) / static_cast<double>(1 << 24); }       // [0,1]
  float real(float lo, float hi) { return static_cast<float>(lo + (hi - lo) * unit()); }
  uint64_t seed() { return upto(0xffffffffull); }

  // -- reporting --
  void label(const std::string &l) { labels[l]++; }
  void nontrivial() { is_nontrivial = true; }
  void note(const std::string &s) { if (notes.size() < 6000) { notes += s; notes += "; "; } }
  // Directory for the files of this case, exclusively owned by this worker
  const std::string &dir() const { return tmpdir; }

  // -- engine side --
  std::string tmpdir;
  bool replaying = false;
  std::vector<uint64_t> replay;
  size_t pos = 0;
  Rng rng{0};
  uint64_t *rec = nullptr;      // shared memory
  volatile uint64_t *rec_len = nullptr;
  size_t rec_cap = 0;
  uint64_t hash = 1469598103934665603ull;
  bool is_nontrivial = false;
  std::string notes;
  std::map<std::string, int> labels;
  bool thorough = false;
};

typedef void (*PropFn)(Case &);

struct Prop {
  std::string check;    // property id in properties.jsonl
  std::string name;
  PropFn fn;
  int quick_cases;      // total number of cases over all the workers
  int thorough_cases;
  int cpu_limit;        // CPU seconds per case before it counts as non-terminating
};

std::vector<Prop> &Registry();

struct Registrar {
  Registrar(const char *check, const char *name, PropFn fn, int q, int t, int cpu = 60) {
    Registry().push_back(Prop{check, name, fn, q, t, cpu});
  }
};

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROPERTY(check, name, quick, thorough, ...) \
  static void name(pbt::Case &c); \
  static pbt::Registrar PBT_CAT(reg_, name)(check, #name, name, quick, thorough, ##__VA_ARGS__); \
  static void name(pbt::Case &c)

std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

#define FAIL(...) throw pbt::Failure{pbt::strf(__VA_ARGS__)}
#define CHECK_(cond, ...) do { if (!(cond)) throw pbt::Failure{std::string(#cond) + ": " + pbt::strf(__VA_ARGS__)}; } while (0)
#define REQUIRE(cond, ...) CHECK_(cond, __VA_ARGS__)

}  // namespace pbt

#endif
