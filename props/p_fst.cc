// C10 transducer files, C09 language model queries
#include <limits.h>
#include <memory>
#include <set>
#include "fst.h"
#include "gen.h"
#include "ref_lm.h"
#include "symbol_table.h"
#include "vector.h"

using namespace pocketkaldi;
using pbt::Case;
using ref::Lm;

namespace {
struct RawFst { int start; std::vector<float> final; std::vector<std::vector<FstArc>> arcs; };
RawFst GenFst(Case &c) {
  RawFst f; int n = c.chance(1, 200) ? c.range(1000, 6000) : c.chance(1, 10) ? c.range(20, 60) : c.range(1, 9); pbt::Rng g(c.seed()); int dens = c.range(0, 5); bool wide = c.chance(1, 100), gaps = n >= 1000 ? c.flip() : n < 20 && c.chance(1, 150); if (gaps && n < 1000) n = c.range(200, 2500); int holes = gaps && c.flip() ? 1 + c.upto(2) : 6; f.start = c.chance(1, 12) ? -1 - static_cast<int>(c.upto(2)) : c.upto(n - 1);
  for (int s = 0; s < n; ++s) {
    f.final.push_back(g.upto(2) ? INFINITY : static_cast<float>(g.range(-40, 40)) / 4);
    std::vector<FstArc> a; int k = (gaps ? g.upto(n / holes) != 0 : g.upto(2) == 0) ? 0 : g.upto(dens * 2); if (wide && !g.upto(n)) k = g.range(1000, 5000); std::set<int> used;
    for (int i = 0; i < k; ++i) used.insert(g.upto(1) ? g.range(0, 8) : g.range(0, 100000));
    for (int l : used) a.push_back(FstArc(g.range(0, n - 1), l, g.range(0, 50), static_cast<float>(g.gauss())));
    f.arcs.push_back(a);
  }
  return f;
}
std::string Bytes(const RawFst &f) {
  std::string s("pk::fst_0"); s.resize(32, '\0'); int n = 0, S = f.final.size(); for (auto &a : f.arcs) n += a.size();
  gen::Put<int32_t>(&s, 12 + 8 * S + 16 * n); gen::Put<int32_t>(&s, S); gen::Put<int32_t>(&s, n); gen::Put<int32_t>(&s, f.start);
  for (float x : f.final) gen::Put<float>(&s, x);
  int at = 0; for (auto &a : f.arcs) { gen::Put<int32_t>(&s, a.empty() ? -1 : at); at += a.size(); }
  for (auto &a : f.arcs) for (auto &x : a) { gen::Put<int32_t>(&s, x.next_state); gen::Put<int32_t>(&s, x.input_label); gen::Put<int32_t>(&s, x.output_label); gen::Put<float>(&s, x.weight); }
  return s;
}
bool Same(const FstArc &a, const FstArc &b) { return a.next_state == b.next_state && a.input_label == b.input_label && a.output_label == b.output_label && a.weight == b.weight; }
}

PROPERTY("C10", fst_files, 24000, 400000) {
  RawFst f = GenFst(c); std::string file = Bytes(f), desc = "intact"; size_t total = 0; for (auto &a : f.arcs) total += a.size(); int S = f.final.size();
  int mode = c.weighted({6, 5, 2, 2, 2, 1});
  auto patch = [&](size_t at, int32_t v) { memcpy(&file[at], &v, 4); };
  switch (mode) {
    case 1: { size_t n = c.upto(file.size() - 1); file.resize(n); desc = pbt::strf("truncated to %zu bytes", n); break; }
    case 2: { int k = c.upto(8); file[k] ^= 1 << c.upto(6); desc = "bad name"; break; }
    case 3: { int32_t d = (c.flip() ? 1 : -1) * static_cast<int32_t>(1 + c.upto(100)); patch(32, static_cast<int32_t>(12 + 8 * S + 16 * total) + d); desc = "wrong section size"; break; }
    case 4: { bool st = c.flip(); int32_t v = -1 - static_cast<int32_t>(c.upto(20)); int32_t s2 = st ? v : S, a2 = st ? static_cast<int32_t>(total) : v; patch(36, s2); patch(40, a2); if (c.flip()) patch(32, 12 + 8 * s2 + 16 * a2); desc = pbt::strf("%d states and %d arcs", s2, a2); break; }
    case 5: { int32_t more = 1 + c.upto(30); bool st = c.flip(); int32_t s2 = S + (st ? more : 0), a2 = total + (st ? 0 : more); patch(36, s2); patch(40, a2); patch(32, 12 + 8 * s2 + 16 * a2); desc = "more states or arcs announced than present"; break; }
  }
  c.note(pbt::strf("%d states, %zu arcs, %s", S, total, desc.c_str())); c.label(mode ? desc.substr(0, 14) : "intact"); if (total > 1 || mode) c.nontrivial();
  std::string path = c.dir() + "/f.bin"; gen::WriteFile(path, file); util::ReadableFile fd; REQUIRE(fd.Open(path).ok(), "open"); Fst t; Status st = t.Read(&fd);
  if (mode) { REQUIRE(!st.ok(), "Read() accepted a file: %s", desc.c_str()); return; }
  if (f.start < 0 && !st.ok()) { c.label("no start state, refused"); return; }
  REQUIRE(st.ok(), "Read() of a valid file (%d states, %zu arcs): %s", S, total, st.what().c_str());
  REQUIRE(t.StartState() == f.start, "StartState() = %d, expected %d", t.StartState(), f.start);
  int step = S > 500 ? S / 300 : 1;   // the search for the arcs of a state may be linear
  int asked = 0; for (int s = 0; s < S; ++s) {
    if (s >= 20 && s <= S - 20 && s % step && (f.arcs[s].empty() || ++asked > 60)) continue;
    REQUIRE(t.Final(s) == f.final[s], "Final(%d) = %g, expected %g", s, t.Final(s), f.final[s]);
    Fst::ArcIterator it = t.IterateArcs(s); size_t k = 0; const FstArc *a;
    while ((a = it.Next()) != nullptr) { REQUIRE(k < f.arcs[s].size() && Same(*a, f.arcs[s][k]), "arc %zu of state %d differs or there are too many", k, s); ++k; }
    REQUIRE(k == f.arcs[s].size(), "state %d has %zu arcs, expected %zu", s, k, f.arcs[s].size());
    REQUIRE(it.Next() == nullptr, "an exhausted iterator returned an arc");
    std::set<int> q{0, 1, 5, 8, 9, 50000, 100001}; for (auto &x : f.arcs[s]) { q.insert(x.input_label); q.insert(x.input_label + 1); }
    if (s + 1 < S) for (auto &x : f.arcs[s + 1]) q.insert(x.input_label);
    for (int l : q) {
      const FstArc *e = nullptr; for (auto &x : f.arcs[s]) if (x.input_label == l) e = &x;
      FstArc g; bool got = t.GetArc(s, l, &g); REQUIRE(got == (e != nullptr), "GetArc(%d, %d) = %d", s, l, got); if (e) REQUIRE(Same(g, *e), "GetArc(%d, %d) returned another arc", s, l);
    }
  }
}

// ---------------------------------------------------------------- C09

namespace {
bool Close(double a, double b) { if (std::isinf(a) || std::isinf(b)) return a == b; return fabs(a - b) <= 1e-5 * (1 + fabs(a) + fabs(b)); }
void Symbols(const std::string &path, const ref::LmShape &sh) {
  std::string t = "<eps> 0\n"; for (int w = 1; w <= sh.words; ++w) t += (w == sh.bos ? std::string("<s>") : w == sh.eos ? std::string("</s>") : "w" + std::to_string(w)) + " " + std::to_string(w) + "\n"; gen::WriteFile(path, t);
}
}

PROPERTY("C09", lm_queries, 12000, 200000) {
  ref::LmShape sh; sh.words = c.range(2, 12); sh.bos = c.range(1, sh.words); do sh.eos = c.range(1, sh.words); while (sh.eos == sh.bos && sh.words > 1 && (sh.eos = sh.bos % sh.words + 1, false)); if (c.chance(1, 5)) sh.scale = c.pick(std::vector<float>{8, 64, 1024});
  Lm lm = ref::GenLm(c, sh, c.chance(1, 6) ? 40 : 8, c.flip());
  std::string d = c.dir() + "/"; gen::WriteFile(d + "lm", lm.Bytes()); Symbols(d + "words", sh);
  SymbolTable sym; REQUIRE(sym.Read(d + "words").ok(), "symbol table"); Vector<float> small(sh.words + 1); std::vector<float> sm(sh.words + 1); for (int i = 0; i <= sh.words; ++i) { sm[i] = static_cast<float>(c.range(-10, 80)) / 8; small(i) = sm[i]; }
  LmFst t; { util::ReadableFile fd; REQUIRE(fd.Open(d + "lm").ok(), "open"); Status st = t.Read(&fd); REQUIRE(st.ok(), "LmFst::Read: %s", st.what().c_str()); }
  bool bucket = c.flip(); if (bucket) t.InitBucket0();
  int cache = c.pick(std::vector<int>{1, 2, 3, 7, 16, 64, 1000}); DeltaLmFst delta(&small, &t, &sym); CachedFst cached(&delta, cache);
  int depth = 0; for (int s = 0; s < lm.states(); ++s) { int k = 0, x = s; while (lm.arcs[x].count(0)) { x = lm.arcs[x][0].next; ++k; } depth = std::max(depth, k); }
  c.note(pbt::strf("%d words, %d states, back-off depth %d, %s, cache of %d", sh.words, lm.states(), depth, bucket ? "table for state 0" : "no table", cache)); c.label(pbt::strf("depth%d", std::min(depth, 4))); if (bucket) c.label("bucket0"); if (lm.states() > 1) c.nontrivial();
  // Start state follows <s>
  int next; double w; int start = lm.Get(lm.start, sh.bos, &next, &w) ? next : lm.start;
  REQUIRE(delta.StartState() == start && cached.StartState() == start, "StartState() = %d (cached %d), expected %d", delta.StartState(), cached.StartState(), start);
  for (int s = 0; s < lm.states(); ++s) {
    REQUIRE(Close(t.Final(s), lm.Final(s)), "Final(%d) = %g, expected %g", s, t.Final(s), lm.Final(s));
    int en; double ew, ef = lm.Get(s, sh.eos, &en, &ew) ? lm.Final(en) + ew - sm[sh.eos] : INFINITY;
    REQUIRE(Close(delta.Final(s), ef) && Close(cached.Final(s), ef), "end-of-sentence cost of state %d is %g (cached %g), expected %g", s, delta.Final(s), cached.Final(s), ef);
    for (int l = 1; l <= sh.words + 1; ++l) {
      if (l > sh.words) { FstArc a; REQUIRE(!t.GetArc(s, l, &a), "GetArc(%d, unknown word) succeeded", s); continue; }
      bool e = lm.Get(s, l, &next, &w); FstArc a; bool g = t.GetArc(s, l, &a);
      REQUIRE(g == e, "GetArc(%d, %d) = %d, expected %d", s, l, g, e); if (e) REQUIRE(a.next_state == next && Close(a.weight, w), "GetArc(%d, %d) -> %d cost %g, expected %d cost %g", s, l, a.next_state, a.weight, next, w);
      g = delta.GetArc(s, l, &a); REQUIRE(g == e, "difference model GetArc(%d, %d) = %d", s, l, g); if (e) REQUIRE(a.next_state == next && Close(a.weight, w - sm[l]), "difference model GetArc(%d, %d) -> %d cost %g, expected %d cost %g", s, l, a.next_state, a.weight, next, w - sm[l]);
    }
  }
  // A history of cached queries
  int q = c.range(1, 120);
  for (int i = 0; i < q; ++i) {
    int s = c.upto(lm.states() - 1), l = c.range(1, sh.words); bool e = lm.Get(s, l, &next, &w); FstArc a; bool g = cached.GetArc(s, l, &a);
    REQUIRE(g == e, "query %d: cached GetArc(%d, %d) = %d, expected %d", i, s, l, g, e); if (e) REQUIRE(a.next_state == next && Close(a.weight, w - sm[l]), "query %d: cached GetArc(%d, %d) -> %d cost %g, expected %d cost %g", i, s, l, a.next_state, a.weight, next, w - sm[l]);
  }
}

// Large label and state numbers: cache and table against the plain search
PROPERTY("C09", lm_large, 120, 2000, 60) {
  pbt::Rng g(c.seed()); bool huge = c.chance(1, 12); int words = huge ? c.range(20000, 150000) : c.range(100, 3000), states = huge ? c.range(5000, 60000) : c.range(50, 800); Lm lm; lm.arcs.resize(states); lm.final.assign(states, INFINITY); lm.final[0] = 0;
  for (int w = 1; w <= words; ++w) if (g.upto(9)) lm.arcs[0][w] = ref::LmArc{g.range(0, states - 1), static_cast<float>(g.unit() * 10)};
  for (int s = 1; s < states; ++s) { lm.arcs[s][0] = ref::LmArc{g.upto(2) ? g.range(0, s - 1) : 0, static_cast<float>(g.unit() * 3)}; int k = g.upto(huge ? 6 : 30); for (int i = 0; i < k; ++i) lm.arcs[s][g.range(1, words)] = ref::LmArc{g.range(0, states - 1), static_cast<float>(g.unit() * 5)}; }
  std::string d = c.dir() + "/"; gen::WriteFile(d + "lm", lm.Bytes()); ref::LmShape sh{words, 1, 2, 1}; Symbols(d + "words", sh); SymbolTable sym; REQUIRE(sym.Read(d + "words").ok(), "symbol table");
  Vector<float> small(words + 1); for (int i = 0; i <= words; ++i) small(i) = static_cast<float>(g.unit()); LmFst t; { util::ReadableFile fd; REQUIRE(fd.Open(d + "lm").ok() && t.Read(&fd).ok(), "read"); } t.InitBucket0();
  DeltaLmFst delta(&small, &t, &sym); CachedFst cached(&delta, c.pick(std::vector<int>{1, 100, 4096, 100003})); c.nontrivial(); c.note(pbt::strf("%d words, %d states", words, states));
  for (int i = 0; i < 20000; ++i) {
    int s = g.range(0, states - 1), l = g.upto(3) ? g.range(1, words) : g.range(1, 20), next; double w; bool e = lm.Get(s, l, &next, &w); FstArc a; bool r = cached.GetArc(s, l, &a);
    REQUIRE(r == e, "cached GetArc(%d, %d) = %d, expected %d", s, l, r, e); if (e) REQUIRE(a.next_state == next && Close(a.weight, w - small(l)), "cached GetArc(%d, %d) -> %d cost %g, expected %d cost %g", s, l, a.next_state, a.weight, next, w - small(l));
  }
}

// The cache in front of any transducer
namespace {
struct Computed: public IFst {
  uint64_t key; int states, labels, sparse; mutable long asked = 0;
  uint64_t At(int s, int l) const { uint64_t h = key ^ (static_cast<uint64_t>(s) << 32 | static_cast<uint32_t>(l)); h *= 0x9e3779b97f4a7c15ull; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; return h ^ h >> 32; }
  int StartState() const override { return At(-1, 0) % states; }
  bool GetArc(int s, int l, FstArc *a) const override { ++asked; uint64_t h = At(s, l); if (h % 8 < static_cast<uint64_t>(sparse)) return false; *a = FstArc(h / 8 % states, l, h / 64 % labels, static_cast<float>(h % 1000) / 8); return true; }
  float Final(int s) const override { return At(s, -1) % 3 ? INFINITY : At(s, -2) % 100; }
};
}
PROPERTY("C09", cache_model, 6000, 100000) {
  Computed f; f.key = c.seed(); f.states = c.pick(std::vector<int>{2, 5, 40, 1000, 100000}); f.labels = c.pick(std::vector<int>{2, 5, 40, 1000, 50000}); f.sparse = c.range(0, 6); int size = c.pick(std::vector<int>{1, 2, 3, 7, 16, 64, 1000}); CachedFst t(&f, size); int n = c.chance(1, 20) ? 3000 : c.range(1, 150); pbt::Rng g(c.seed()); long hits = 0, same = 0;
  REQUIRE(t.StartState() == f.StartState(), "StartState() = %d, expected %d", t.StartState(), f.StartState()); std::vector<std::pair<int, int>> past;
  for (int i = 0; i < n; ++i) {
    int s, l; if (!past.empty() && g.upto(1)) { auto p = past[g.upto(1) ? past.size() - 1 - g.upto(std::min<int>(8, past.size()) - 1) : g.upto(past.size() - 1)]; s = p.first; l = p.second; switch (g.upto(5)) { case 0: s = std::min(s + 1, f.states - 1); l = std::max(0, l - 31); break; case 1: l = g.upto(f.labels - 1); break; case 2: s = g.upto(f.states - 1); break; default: ++same; } } else { s = g.upto(f.states - 1); l = g.upto(f.labels - 1); }
    past.push_back({s, l}); FstArc a, e; bool want = f.GetArc(s, l, &e); long before = f.asked; bool got = t.GetArc(s, l, &a); if (f.asked == before) ++hits;
    REQUIRE(got == want, "query %d of a cache of %d: GetArc(%d, %d) = %d, expected %d", i, size, s, l, got, want); if (want) REQUIRE(Same(a, e), "query %d of a cache of %d: GetArc(%d, %d) is -> %d %d:%d/%g, expected -> %d %d:%d/%g", i, size, s, l, a.next_state, a.input_label, a.output_label, a.weight, e.next_state, e.input_label, e.output_label, e.weight);
    if (g.upto(9) == 0) REQUIRE(t.Final(s) == f.Final(s), "Final(%d) = %g, expected %g", s, t.Final(s), f.Final(s));
  }
  c.note(pbt::strf("cache of %d, %d states, %d labels, %d queries, %ld answered by the cache", size, f.states, f.labels, n, hits)); if (hits) c.nontrivial(); (void)same;
}
