// Decoding graphs and an exhaustive reference search over them, optionally composed with a back-off language model.
//
// Every weight is a multiple of 1/8 and every sum is small, so both the float arithmetic of the decoder and the
// double arithmetic here are exact and costs are compared for equality.
#ifndef VERIF_REF_GRAPH_H_
#define VERIF_REF_GRAPH_H_
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "decoder.h"
#include "gen.h"
#include "ref_lm.h"

namespace ref {

struct GArc { int il, ol; double w; int next; };
struct Graph {
  int start = 0; std::vector<std::vector<GArc>> arcs; std::vector<double> final;
  int states() const { return arcs.size(); }
  int narcs() const { int n = 0; for (auto &a : arcs) n += a.size(); return n; }
  std::unique_ptr<fst::ConstFst<fst::StdArc>> Make() const {
    fst::VectorFst<fst::StdArc> v;
    for (int s = 0; s < states(); ++s) v.AddState();
    v.SetStart(start);
    for (int s = 0; s < states(); ++s) {
      if (std::isfinite(final[s])) v.SetFinal(s, fst::TropicalWeight(static_cast<float>(final[s])));
      for (auto &a : arcs[s]) v.AddArc(s, fst::StdArc(a.il, a.ol, fst::TropicalWeight(static_cast<float>(a.w)), a.next));
    }
    return std::unique_ptr<fst::ConstFst<fst::StdArc>>(new fst::ConstFst<fst::StdArc>(v));
  }
};

// The language model of the search: a big model minus the model that is already in the graph
struct DeltaLm {
  const Lm *lm = nullptr; std::vector<double> small; int bos = 0, eos = 0;
  int Start() const { int n; double w; return lm->Get(lm->start, bos, &n, &w) ? n : lm->start; }
  // A word the big model does not have leaves the state as it is and costs nothing
  int Step(int state, int word, double *w) const {
    *w = 0; if (!lm || word == 0) return state;
    int n; double x; if (!lm->Get(state, word, &n, &x)) return state;
    *w = x - small[word]; return n;
  }
  double Final(int state) const {
    if (!lm) return 0; int n; double x; if (!lm->Get(state, eos, &n, &x)) return INFINITY;
    return lm->Final(n) + x - small[eos];
  }
};

typedef std::vector<std::vector<double>> Costs;   // [frame][transition id]: acoustic cost

class Search {
 public:
  double kBeam = 16.0;
  Search(const Graph &g, const DeltaLm &lm, const Costs &ac): g_(g), lm_(lm), ac_(ac) {}

  typedef std::pair<int, int> St;   // graph state, language model state
  typedef std::map<St, double> Toks;

  // Advances both searches through every frame. best[t] is the cheapest path to each state after t frames; safe[t] is
  // restricted to paths each of whose prefixes is within `beam` of the best of its frame: a beam search of that width
  // keeps a token at least as cheap for each of them.
  std::vector<Toks> best, safe;
  void Run(bool with_safe = true) {
    best.clear(); safe.clear();
    Toks b; b[St(g_.start, lm_.lm ? lm_.Start() : 0)] = 0; Toks s = b; Close(&b, INFINITY); Close(&s, INFINITY); best.push_back(b); if (with_safe) safe.push_back(s);
    for (size_t t = 0; t < ac_.size(); ++t) {
      double m = INFINITY; Toks nb; double lowest = INFINITY;
      for (auto &kv : best.back()) lowest = std::min(lowest, kv.second);
      for (auto &kv : best.back()) for (auto &a : g_.arcs[kv.first.first]) if (a.il) m = std::min(m, kv.second + a.w + ac_[t][a.il]);
      Emit(best.back(), t, INFINITY, INFINITY, &nb); Close(&nb, INFINITY);
      if (with_safe) { Toks ns; Emit(safe.back(), t, lowest + kBeam, m + kBeam, &ns); Close(&ns, m + kBeam); safe.push_back(ns); }
      best.push_back(nb);
    }
  }
  // Cheapest complete path (end of stream) or cheapest prefix
  double Cheapest(const Toks &t, bool end) const {
    double b = INFINITY;
    for (auto &kv : t) { double x = kv.second; if (end) x += g_.final[kv.first.first] + lm_.Final(kv.first.second); b = std::min(b, x); }
    return b;
  }

  // Cheapest path over the first `frames` frames that outputs exactly `words`
  double Forced(const std::vector<int> &words, int frames, bool end) const {
    int L = lm_.lm ? lm_.lm->states() : 1, G = g_.states() * L, W = words.size(); std::vector<double> cur(static_cast<size_t>(G) * (W + 1), INFINITY), nx(cur.size());
    // Cell k * G + state * L + lm state, k words output so far; cells of k outside [0, hi] are not reached yet
    int hi = 0; std::vector<std::vector<GArc>> &arcs = const_cast<Graph &>(g_).arcs; std::vector<size_t> q; std::vector<char> inq(cur.size(), 0);
    auto each = [&](size_t cell, bool eps, const std::vector<double> *ac, std::vector<double> *out, bool queue) {
      int k = cell / G, st = cell % G / L, ls = cell % L; double v = cur[cell];
      for (auto &a : arcs[st]) {
        if ((a.il == 0) != eps) continue; int n = k; if (a.ol) { if (n >= W || words[n] != a.ol) continue; ++n; }
        double lw; int l2 = lm_.Step(ls, a.ol, &lw); size_t o = static_cast<size_t>(n) * G + a.next * L + l2; double c = v + a.w + lw + (eps ? 0 : (*ac)[a.il]);
        if (c < (*out)[o]) { (*out)[o] = c; hi = std::max(hi, n); if (queue && !inq[o]) { inq[o] = 1; q.push_back(o); } }
      }
    };
    auto close = [&]() {
      for (size_t i = 0; i < static_cast<size_t>(hi + 1) * G; ++i) if (std::isfinite(cur[i])) { q.push_back(i); inq[i] = 1; }
      while (!q.empty()) { size_t x = q.back(); q.pop_back(); inq[x] = 0; each(x, true, nullptr, &cur, true); }
    };
    cur[g_.start * L + (lm_.lm ? lm_.Start() : 0)] = 0; close();
    for (int t = 0; t < frames; ++t) { int h0 = hi; std::fill(nx.begin(), nx.begin() + std::min(nx.size(), static_cast<size_t>(h0 + 2) * G), INFINITY); for (size_t i = 0; i < static_cast<size_t>(h0 + 1) * G; ++i) if (std::isfinite(cur[i])) each(i, false, &ac_[t], &nx, false); cur.swap(nx); std::fill(cur.begin() + std::min(cur.size(), static_cast<size_t>(h0 + 2) * G), cur.end(), INFINITY); close(); }
    double b = INFINITY;
    for (int i = 0; i < G; ++i) { double x = cur[static_cast<size_t>(W) * G + i]; if (end) x += g_.final[i / L] + lm_.Final(i % L); b = std::min(b, x); }
    return b;
  }

  // Is there a path over the first `frames` frames that outputs exactly `words` and costs exactly `cost`?
  // 1 yes, 0 no, -1 too many to tell
  int Exists(const std::vector<int> &words, int frames, bool end, double cost, size_t limit = 300000) const {
    struct Key { int s, l, k; long c; bool operator==(const Key &o) const { return s == o.s && l == o.l && k == o.k && c == o.c; } };
    struct H { size_t operator()(const Key &x) const { return ((x.s * 1000003u + x.l) * 1000003u + x.k) * 1000003u + static_cast<size_t>(x.c); } };
    std::unordered_set<Key, H> cur; cur.insert(Key{g_.start, lm_.lm ? lm_.Start() : 0, 0, 0}); size_t total = 0; const long R = 1 << 14;
    auto step = [&](const Key &k, const GArc &a, double extra, Key *o) { int n = k.k; if (a.ol) { if (n >= static_cast<int>(words.size()) || words[n] != a.ol) return false; ++n; } double lw; int ls = lm_.Step(k.l, a.ol, &lw); long cc = k.c + lround((a.w + lw + extra) * 8); if (labs(cc) > R) return false; *o = Key{a.next, ls, n, cc}; return true; };
    auto close = [&](std::unordered_set<Key, H> *m) { std::vector<Key> q(m->begin(), m->end()); while (!q.empty() && m->size() < limit) { Key k = q.back(); q.pop_back(); for (auto &a : g_.arcs[k.s]) { Key o; if (!a.il && step(k, a, 0, &o) && m->insert(o).second) q.push_back(o); } } };
    close(&cur);
    for (int t = 0; t < frames; ++t) { std::unordered_set<Key, H> nx; for (auto &k : cur) for (auto &a : g_.arcs[k.s]) { Key o; if (a.il && step(k, a, ac_[t][a.il], &o)) nx.insert(o); } close(&nx); total += nx.size(); if (nx.size() >= limit || total > 4 * limit) return -1; cur.swap(nx); }
    long want = lround(cost * 8);
    for (auto &k : cur) { if (k.k != static_cast<int>(words.size())) continue; double x = k.c; if (end) { double f = g_.final[k.s] + lm_.Final(k.l); if (!std::isfinite(f)) continue; x += f * 8; } if (lround(x) == want) return 1; }
    return 0;
  }

 private:
  void Emit(const Toks &from, size_t t, double from_limit, double limit, Toks *to) const {
    for (auto &kv : from) {
      if (kv.second > from_limit) continue;
      for (auto &a : g_.arcs[kv.first.first]) {
        if (!a.il) continue; double c = kv.second + a.w + ac_[t][a.il]; if (c > limit) continue;
        double lw; int ls = lm_.Step(kv.first.second, a.ol, &lw); Put(to, St(a.next, ls), c + lw);
      }
    }
  }
  void Close(Toks *m, double limit) const {
    std::deque<St> q; for (auto &kv : *m) q.push_back(kv.first);
    while (!q.empty()) {
      St k = q.front(); q.pop_front(); double v = (*m)[k];
      for (auto &a : g_.arcs[k.first]) { if (a.il) continue; double lw; int ls = lm_.Step(k.second, a.ol, &lw); double c = v + a.w + lw; if (c > limit) continue; if (Put(m, St(a.next, ls), c)) q.push_back(St(a.next, ls)); }
    }
  }
  static bool Put(Toks *m, const St &s, double c) { auto it = m->find(s); if (it == m->end() || c < it->second) { (*m)[s] = c; return true; } return false; }
  const Graph &g_; const DeltaLm &lm_; const Costs &ac_;
};

inline std::string Words(const std::vector<int> &w) { std::string s; for (int x : w) { s += (s.empty() ? "" : " ") + std::to_string(x); } return "[" + s + "]"; }

// Random graph. Epsilon arcs only go to higher states when `dag_eps`, so no cycle can have a negative cost.
struct GraphShape { int max_states = 10, tids = 4, words = 4; bool dag_eps = true; int eps_of_8 = 2; int word_of_8 = 3; int spread = 40; bool sinks = true; };
inline Graph GenGraph(pbt::Case &c, const GraphShape &sh) {
  Graph g; int n = c.range(1, sh.max_states); g.arcs.resize(n); g.final.assign(n, INFINITY);
  for (int s = 0; s < n; ++s) {
    int k = c.range(sh.sinks ? 0 : 1, 4); if (s == 0 && k == 0) k = 1;
    for (int i = 0; i < k; ++i) {
      GArc a; bool eps = c.chance(sh.eps_of_8, 8); if (eps && sh.dag_eps && s == n - 1) eps = false;
      a.next = eps && sh.dag_eps ? s + 1 + c.upto(n - 2 - s) : c.upto(n - 1);
      a.il = eps ? 0 : c.range(1, sh.tids); a.ol = c.chance(sh.word_of_8, 8) ? c.range(1, sh.words) : 0;
      a.w = c.range(eps && sh.dag_eps ? -16 : 0, sh.spread) / 8.0; if (!eps && c.chance(1, 8)) a.w = -a.w;
      g.arcs[s].push_back(a);
    }
    if (!sh.sinks) { GArc a; a.next = c.upto(n - 1); a.il = c.range(1, sh.tids); a.ol = 0; a.w = c.range(0, sh.spread) / 8.0; g.arcs[s].push_back(a); }
    if (c.chance(1, 2)) g.final[s] = c.range(0, 24) / 8.0;
  }
  g.start = c.upto(n - 1);
  return g;
}
}  // namespace ref
#endif
