// Very long searches: a graph in which the words determine the path, so that a result of any length can be judged
#ifndef VERIF_REF_LONG_H_
#define VERIF_REF_LONG_H_
#include <algorithm>
#include <vector>
#include "ref_graph.h"

namespace ref {
// Every state has an arc to every state, every arc a word of its own: the arc from s to t has word 1 + s * n + t
inline Graph CompleteGraph(pbt::Rng *g, int n, int tids, int spread8) {
  Graph r; r.arcs.resize(n); for (int s = 0; s < n; ++s) { for (int t = 0; t < n; ++t) r.arcs[s].push_back(GArc{g->range(1, tids), 1 + s * n + t, g->range(0, spread8) / 8.0, t}); r.final.push_back(g->range(0, 16) / 8.0); }
  r.start = g->range(0, n - 1); return r;
}

class LongSearch {
 public:
  LongSearch(const Graph &g, const DeltaLm &lm): g_(g), lm_(lm), L_(lm.lm ? lm.lm->states() : 1), n_(g.states()) { cur_.assign(n_ * L_, INFINITY); cur_[g.start * L_ + (lm.lm ? lm.Start() : 0)] = 0; low_.push_back(0); }
  void Push(const std::vector<double> &ac) {
    std::vector<double> nx(cur_.size(), INFINITY); std::vector<uint16_t> from(cur_.size(), 0); std::vector<float> w(cur_.size(), 0); double m = INFINITY;
    for (size_t i = 0; i < cur_.size(); ++i) if (std::isfinite(cur_[i])) for (auto &a : g_.arcs[i / L_]) { double lw, c = cur_[i] + a.w + ac[a.il]; m = std::min(m, c); int l = lm_.Step(i % L_, a.ol, &lw); size_t o = a.next * L_ + l; if (c + lw < nx[o]) { nx[o] = c + lw; from[o] = i; w[o] = c; } }
    // How far each prefix is above the limits that pruning may set: by the cheapest hypothesis before and after the frame
    std::vector<float> gap(cur_.size(), 0); for (size_t i = 0; i < cur_.size(); ++i) gap[i] = std::isfinite(nx[i]) ? std::max(static_cast<double>(gap_.empty() ? 0 : gap_[from[i]]), std::max(w[i] - m, cur_[from[i]] - low_.back())) : INFINITY;
    gap_.swap(gap); cur_.swap(nx); ac_.push_back(ac); low_.push_back(*std::min_element(cur_.begin(), cur_.end()));
  }
  // Cost of the cheapest path, and how far it ever is above the cheapest hypothesis
  double Best(bool end, double *gap) const { double b = INFINITY; *gap = INFINITY; for (size_t i = 0; i < cur_.size(); ++i) { double x = cur_[i]; if (end) x += g_.final[i / L_] + lm_.Final(i % L_); if (!std::isfinite(x)) continue; double h = gap_.empty() ? 0 : gap_[i]; if (x < b || (x == b && h < *gap)) { b = x; *gap = h; } } return b; }
  // Cost of the path with these words
  double Cost(const std::vector<int> &words, bool end) const {
    if (words.size() != ac_.size()) return INFINITY; int s = g_.start, l = lm_.lm ? lm_.Start() : 0; double c = 0;
    for (size_t t = 0; t < words.size(); ++t) { int w = words[t] - 1; if (w < 0 || w >= n_ * n_ || w / n_ != s) return INFINITY; const GArc &a = g_.arcs[s][w % n_]; double lw; l = lm_.Step(l, a.ol, &lw); c += a.w + lw + ac_[t][a.il]; s = a.next; }
    if (end) c += g_.final[s] + lm_.Final(l); return c;
  }
  int frames() const { return ac_.size(); }

 private:
  const Graph &g_; const DeltaLm &lm_; int L_, n_; std::vector<double> cur_, low_; std::vector<float> gap_; Costs ac_;
};
}  // namespace ref
#endif
