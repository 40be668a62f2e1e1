// Back-off language models in the file format of the recognizer, and a reference for their queries
#ifndef VERIF_REF_LM_H_
#define VERIF_REF_LM_H_
#include <cmath>
#include <algorithm>
#include <limits>
#include <map>
#include <string>
#include <vector>
#include "gen.h"

namespace ref {

struct LmArc { int next; float w; };
struct Lm {
  int start = 0; std::vector<std::map<int, LmArc>> arcs;   // by input label, 0 is the back-off arc
  std::vector<float> final;
  int states() const { return arcs.size(); }
  std::string Bytes() const {
    std::string s("pk::fst_0"); s.resize(32, '\0'); int n = 0; for (auto &a : arcs) n += a.size();
    gen::Put<int32_t>(&s, 12 + 8 * states() + 16 * n); gen::Put<int32_t>(&s, states()); gen::Put<int32_t>(&s, n); gen::Put<int32_t>(&s, start);
    for (float f : final) gen::Put<float>(&s, f);
    int at = 0; for (auto &a : arcs) { gen::Put<int32_t>(&s, a.empty() ? -1 : at); at += a.size(); }
    for (auto &a : arcs) for (auto &kv : a) { gen::Put<int32_t>(&s, kv.second.next); gen::Put<int32_t>(&s, kv.first); gen::Put<int32_t>(&s, kv.first); gen::Put<float>(&s, kv.second.w); }
    return s;
  }
  // Follows `label` from `state` with back-off; false if no state of the chain has it
  bool Get(int state, int label, int *next, double *w) const {
    double b = 0;
    for (;;) {
      auto it = arcs[state].find(label);
      if (it != arcs[state].end()) { *next = it->second.next; *w = b + it->second.w; return true; }
      auto bo = arcs[state].find(0); if (bo == arcs[state].end()) return false;
      b += bo->second.w; state = bo->second.next;
    }
  }
  double Final(int state) const {
    double b = 0;
    for (;;) {
      if (std::isfinite(final[state])) return b + final[state];
      auto bo = arcs[state].find(0); if (bo == arcs[state].end()) return INFINITY;
      b += bo->second.w; state = bo->second.next;
    }
  }
};

struct LmShape { int words; int bos, eos; float scale = 1; };   // word ids are 1..words, bos and eos among them; scale: a power of two for the weights

// Order-n back-off model: one state has no history (mostly state 0), the others back off towards it
inline Lm GenLm(pbt::Case &c, const LmShape &sh, int max_states, bool full_unigram) {
  Lm lm; int n = c.range(1, max_states); lm.arcs.resize(n); lm.final.assign(n, std::numeric_limits<float>::infinity());
  auto wt = [&]() { return static_cast<float>(c.range(-20, 120)) / 8.0f * sh.scale; };
  for (int s = 0; s < n; ++s) {
    if (s > 0 && !c.chance(1, 12)) lm.arcs[s][0] = LmArc{c.chance(1, 3) ? 0 : static_cast<int>(c.upto(s - 1)), wt()};
    for (int w = 1; w <= sh.words; ++w) {
      bool has = s == 0 ? (full_unigram || c.chance(3, 4)) : c.chance(1, 3);
      if (has) lm.arcs[s][w] = LmArc{static_cast<int>(c.upto(n - 1)), wt()};
    }
    if (c.chance(1, 3)) lm.final[s] = wt();
  }
  if (full_unigram || c.chance(3, 4)) lm.final[0] = c.flip() ? 0.0f : wt();
  lm.start = c.upto(n - 1);
  // Nothing says that state 0 is the one without history
  int k = c.chance(1, 3) ? static_cast<int>(c.upto(n - 1)) : 0;
  if (k) {
    auto m = [k](int s) { return s == 0 ? k : s == k ? 0 : s; };
    std::swap(lm.arcs[0], lm.arcs[k]); std::swap(lm.final[0], lm.final[k]); lm.start = m(lm.start);
    for (auto &a : lm.arcs) for (auto &kv : a) kv.second.next = m(kv.second.next);
  }
  return lm;
}
}  // namespace ref
#endif
