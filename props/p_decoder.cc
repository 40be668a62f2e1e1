// C03, C04 exact search; C05 pruned search; C06 word history of long utterances
#include <algorithm>
#include <memory>
#include "decoder.h"
#include "fst.h"
#include "gen.h"
#include "ref_graph.h"
#include "ref_long.h"
#include "symbol_table.h"

using namespace pocketkaldi;
using pbt::Case;
using ref::Graph;

namespace {
struct LmFiles {
  std::unique_ptr<SymbolTable> sym; std::unique_ptr<LmFst> big; std::unique_ptr<Vector<float>> small; std::unique_ptr<DeltaLmFst> delta;
  void Load(Case &c, const ref::Lm &lm, const ref::DeltaLm &d, int words, bool bucket) {
    std::string t = "<eps> 0\n"; for (int w = 1; w <= words; ++w) t += (w == d.bos ? std::string("<s>") : w == d.eos ? std::string("</s>") : "w" + std::to_string(w)) + " " + std::to_string(w) + "\n";
    gen::WriteFile(c.dir() + "/words", t); gen::WriteFile(c.dir() + "/lm", lm.Bytes()); sym.reset(new SymbolTable()); REQUIRE(sym->Read(c.dir() + "/words").ok(), "symbol table");
    big.reset(new LmFst()); util::ReadableFile fd; REQUIRE(fd.Open(c.dir() + "/lm").ok() && big->Read(&fd).ok(), "language model"); if (bucket) big->InitBucket0();
    small.reset(new Vector<float>(words + 1)); for (int i = 0; i <= words; ++i) (*small)(i) = static_cast<float>(d.small[i]);
    delta.reset(new DeltaLmFst(small.get(), big.get(), sym.get()));
  }
};

// Acoustic scores: integers per pdf and frame, scaled by a power of two
struct Acoustic {
  float scale; int pdfs; std::vector<std::vector<int>> logp; std::vector<int> map; ref::Costs cost; Vector<int32_t> tid2pdf; Vector<float> frame;
  void Finish(int tids) {
    tid2pdf.Resize(tids + 1); for (int i = 0; i <= tids; ++i) tid2pdf(i) = map[i];
    cost.clear(); for (auto &f : logp) { std::vector<double> r(tids + 1, 0); for (int i = 1; i <= tids; ++i) r[i] = -static_cast<double>(scale) * f[map[i]]; cost.push_back(r); }
    frame.Resize(pdfs);
  }
  const Vector<float> &Frame(int t) { for (int i = 0; i < pdfs; ++i) frame(i) = static_cast<float>(logp[t][i]); return frame; }
};
Acoustic GenAcoustic(Case &c, int tids, int frames, int spread8) {
  Acoustic a; a.scale = c.pick(std::vector<float>{0.125f, 1.0f, 0.5f}); a.pdfs = c.range(1, tids + 1); a.map.assign(tids + 1, 0); for (int i = 1; i <= tids; ++i) a.map[i] = c.upto(a.pdfs - 1);
  int hi = std::max(1, static_cast<int>(spread8 / 8.0 / a.scale)); bool bulk = frames > 16; pbt::Rng g(bulk ? c.seed() : 0);
  for (int t = 0; t < frames; ++t) { std::vector<int> f; for (int i = 0; i < a.pdfs; ++i) f.push_back(-(bulk ? g.range(-hi / 8, hi) : c.range(-hi / 8, hi))); a.logp.push_back(f); }
  a.Finish(tids); return a;
}

struct Setup { std::map<int, int> word_of;   // word ids of the decoder -> word ids of the reference, when they differ
  std::vector<int> tid_at;   // transition id of the reference -> that of the decoder
  void Renumber() { int top = *std::max_element(tid_at.begin(), tid_at.end()); a.tid2pdf.Resize(top + 1); for (int i = 0; i <= top; ++i) a.tid2pdf(i) = 0; for (int i = 0; i <= tids; ++i) a.tid2pdf(tid_at[i]) = a.map[i]; }
  Graph g; Acoustic a; ref::Lm lm; ref::DeltaLm d; LmFiles files; bool with_lm = false; int tids, words, frames; std::unique_ptr<fst::ConstFst<fst::StdArc>> fst; };

// The decoder gets the same graph and language model with other numbers for states, transitions and words: large ones,
// many of them equal in their lower 16 bits. The reference keeps the small ones.
void Disguise(Case &c, Setup *s) {
  c.label("large numbers"); pbt::Rng g(c.seed()); auto spread = [&](int n, int first, int limit) { std::vector<int> v(n); int low = g.range(0, 20); for (int i = 0; i < n; ++i) v[i] = i < first ? i : limit > 1 ? low + first + 65536 * (1 + i % limit) + (i / limit) : i; for (int i = n - 1; i > first; --i) std::swap(v[i], v[g.range(first, i)]); return v; };
  bool ws = c.flip(), ts = c.flip(), ss = c.flip(), ls = s->with_lm && c.flip(); std::vector<int> w = spread(s->words + 1, 1, ws ? 6 : 1), t = spread(s->tids + 1, 1, ts ? 6 : 1), st = spread(s->g.states(), 0, ss ? 3 : 1), l = spread(s->with_lm ? s->lm.states() : 0, 1, ls ? 3 : 1);
  // Pairs of states that a table of pairs may put on the same place: 31 * state + model state, and sizes of the table
  if (ls && c.flip()) { int step = c.pick(std::vector<int>{31, 131, 196613}); for (size_t i = 1; i < l.size(); ++i) l[i] = step * static_cast<int>(i); if (c.flip()) for (size_t i = 0; i < st.size(); ++i) st[i] = i; c.label("aligned numbers"); }
  auto top = [](const std::vector<int> &v) { return v.empty() ? 0 : *std::max_element(v.begin(), v.end()); };
  Graph d; d.arcs.resize(top(st) + 1); d.final.assign(top(st) + 1, INFINITY); d.start = st[s->g.start]; for (int i = 0; i < s->g.states(); ++i) { d.final[st[i]] = s->g.final[i]; for (auto a : s->g.arcs[i]) { a.il = t[a.il]; a.ol = w[a.ol]; a.next = st[a.next]; d.arcs[st[i]].push_back(a); } }
  s->fst = d.Make(); s->tid_at = t; s->Renumber(); for (int i = 0; i <= s->words; ++i) s->word_of[w[i]] = i;
  if (!s->with_lm) return;
  ref::Lm m; m.arcs.resize(top(l) + 1); m.final.assign(top(l) + 1, INFINITY); m.start = l[s->lm.start]; for (int i = 0; i < s->lm.states(); ++i) { m.final[l[i]] = s->lm.final[i]; for (auto &kv : s->lm.arcs[i]) m.arcs[l[i]][w[kv.first]] = ref::LmArc{l[kv.second.next], kv.second.w}; }
  ref::DeltaLm dl; dl.bos = w[s->d.bos]; dl.eos = w[s->d.eos]; dl.small.assign(top(w) + 1, 0.0); for (int i = 0; i <= s->words; ++i) dl.small[w[i]] = s->d.small[i]; s->files.Load(c, m, dl, top(w), c.chance(3, 4));
}

void Generate(Case &c, Setup *s, bool with_lm, ref::GraphShape sh, int max_frames, int spread8, int most_words = 6) {
  s->tids = sh.tids = c.range(1, 6); s->words = sh.words = c.range(with_lm ? 3 : 1, most_words); sh.dag_eps = with_lm || c.chance(3, 4); s->with_lm = with_lm;
  s->g = ref::GenGraph(c, sh); s->frames = c.chance(1, 20) ? 0 : c.range(1, max_frames); s->a = GenAcoustic(c, s->tids, s->frames, spread8);
  if (with_lm) {
    s->d.bos = c.range(1, s->words); s->d.eos = s->d.bos % s->words + 1; ref::LmShape ls{s->words, s->d.bos, s->d.eos}; bool full = !c.chance(1, 8); if (!full) c.label("words missing from the model");
    s->lm = ref::GenLm(c, ls, 6, full); s->d.lm = &s->lm; for (int i = 0; i <= s->words; ++i) s->d.small.push_back(c.range(-8, 64) / 8.0);
    s->files.Load(c, s->lm, s->d, s->words, c.chance(3, 4));
    // Epsilon arcs back to the same or a lower state, heavier than what any word can save
    if (c.chance(1, 4)) {
      double low = 0; for (int q = 0; q < s->lm.states(); ++q) for (int w = 1; w <= s->words; ++w) { double x; s->d.Step(q, w, &x); low = std::min(low, x); }
      double eps = 0; for (auto &v : s->g.arcs) for (auto &a : v) if (!a.il) eps = std::min(eps, static_cast<double>(a.w));
      int k = c.range(1, 3), n = s->g.states(); bool self = c.flip(); for (int i = 0; i < k; ++i) { ref::GArc a; int from = c.upto(n - 1); a.next = self ? from : static_cast<int>(c.upto(from)); a.il = 0; a.ol = c.chance(3, 4) ? c.range(1, s->words) : 0; a.w = a.next == from ? -low + c.range(0, 24) / 8.0 : -low * n - eps * n + c.range(0, 24) / 8.0; s->g.arcs[from].insert(s->g.arcs[from].begin() + c.upto(s->g.arcs[from].size()), a); }
      c.label("epsilon cycles");
    }
  }
  bool wide = c.chance(1, 50); if (wide) Disguise(c, s); else s->fst = s->g.Make();
  c.note(pbt::strf("%d states, %d arcs, %d frames, %d pdfs%s%s", s->g.states(), s->g.narcs(), s->frames, s->a.pdfs, with_lm ? ", language model" : "", wide ? ", large numbers" : ""));
}

std::vector<int> InOrder(const Decoder::Hypothesis &h, const Setup &s) { std::vector<int> w = h.words(); std::reverse(w.begin(), w.end()); if (!s.word_of.empty()) for (int &x : w) { auto it = s.word_of.find(x); REQUIRE(it != s.word_of.end() && it->second > 0, "the result has the word %d, which the graph does not have", x); x = it->second; } return w; }
std::vector<int> InOrder(const Decoder::Hypothesis &h) { std::vector<int> w = h.words(); std::reverse(w.begin(), w.end()); return w; }

// The decoder has had another utterance before: ended, abandoned, or one in which the search died
void Initialize(Case &c, Setup &s, Decoder *dec) {
  dec->Initialize(); if (!c.chance(1, 6)) return;
  int rounds = c.range(1, 3); for (int i = 0; i < rounds; ++i) { int n = s.frames ? c.upto(std::min(s.frames, 45)) : 0; for (int t = 0; t < n; ++t) dec->Process(s.a.Frame(c.upto(s.frames - 1))); if (c.flip()) dec->BestPath(); if (c.flip()) { dec->EndOfStream(); dec->BestPath(); } dec->Initialize(); }
  REQUIRE(dec->NumFramesDecoded() == 0, "NumFramesDecoded() = %d after Initialize()", dec->NumFramesDecoded()); c.label("decoder used before");
}

struct Verdict { bool exact = false, empty = false, pruned = false; size_t words = 0; };

// The rule every search result has to satisfy after `frames` frames
Verdict Judge(Case &c, const Setup &s, const ref::Search &r, int frames, bool end, const Decoder::Hypothesis &h, bool dead, bool need_exact) {
  Verdict v; std::vector<int> w = InOrder(h, s); double best = r.Cheapest(r.best[frames], end), bound = r.Cheapest(r.safe[frames], end), got = h.weight(); const char *what = end ? "final" : "partial"; v.words = w.size();
  bool nothing = w.empty() && got == 0.0;   // what an empty beam looks like; also a legal result for a wordless path of cost 0
  if (!std::isfinite(best)) { REQUIRE(nothing, "%s result after %d frames is %s with cost %g but there is no path", what, frames, ref::Words(w).c_str(), got); v.empty = true; return v; }
  if (need_exact && best != bound) throw pbt::Discard();
  if (!std::isfinite(bound) && nothing) { v.pruned = true; v.empty = true; return v; }
  double forced = r.Forced(w, frames, end);
  REQUIRE(std::isfinite(forced), "%s result after %d frames: no path of the graph outputs %s", what, frames, ref::Words(w).c_str());
  REQUIRE(got >= best, "%s result %s after %d frames has cost %.10g, below the cheapest path (%.10g)", what, ref::Words(w).c_str(), frames, got, best);
  REQUIRE(got <= bound, "%s result %s after %d frames has cost %.10g, but a path that stays within the beam costs %.10g (cheapest %.10g)", what, ref::Words(w).c_str(), frames, got, bound, best);
  REQUIRE(got >= forced, "%s result %s after %d frames has cost %.10g, its cheapest path costs %.10g", what, ref::Words(w).c_str(), frames, got, forced);
  if (got != forced) { int e = r.Exists(w, frames, end, got); if (e < 0) c.label("path not enumerated"); REQUIRE(e != 0, "%s result %s after %d frames: no path with these words has cost %.10g", what, ref::Words(w).c_str(), frames, got); }
  v.exact = got == best; v.pruned = best != bound; return v;
}

Verdict Decode(Case &c, Setup &s, bool need_exact, bool partials) {
  ref::Search r(s.g, s.d, s.a.cost); r.Run();
  if (need_exact && std::isfinite(r.Cheapest(r.best[s.frames], true)) && r.Cheapest(r.best[s.frames], true) != r.Cheapest(r.safe[s.frames], true)) throw pbt::Discard();
  Decoder dec(s.fst.get(), s.a.tid2pdf, s.a.scale, s.with_lm ? s.files.delta.get() : nullptr); Initialize(c, s, &dec); bool dead = false;
  REQUIRE(dec.NumFramesDecoded() == 0, "NumFramesDecoded() = %d at the start", dec.NumFramesDecoded());
  for (int t = 0; t < s.frames; ++t) {
    bool ok = dec.Process(s.a.Frame(t));
    if (r.best[t + 1].empty()) { REQUIRE(!ok, "Process() of frame %d succeeded but no path has that many frames", t); }
    if (!r.safe[t + 1].empty()) { REQUIRE(ok, "Process() of frame %d failed although paths within the beam survive", t); REQUIRE(dec.NumFramesDecoded() == t + 1, "NumFramesDecoded() = %d after %d frames", dec.NumFramesDecoded(), t + 1); }
    if (dead) REQUIRE(!ok, "Process() of frame %d succeeded after the search died", t); dead = dead || !ok;
    if (partials && (t % 3 == 0 || t + 1 == s.frames)) { double pb = r.Cheapest(r.best[t + 1], false), ps = r.Cheapest(r.safe[t + 1], false); if (!need_exact || pb == ps) Judge(c, s, r, t + 1, false, dec.BestPath(), dead, false); }
  }
  dec.EndOfStream(); Verdict v = Judge(c, s, r, s.frames, true, dec.BestPath(), dead, false);
  Verdict again = Judge(c, s, r, s.frames, true, dec.BestPath(), dead, false); REQUIRE(again.words == v.words, "BestPath() changes from call to call");
  if (v.empty) c.label("no result"); if (dead) c.label("search died"); if (v.exact) c.label("cheapest path found"); if (v.pruned) c.label("cheapest path outside the beam"); if (v.words > 1) c.label("several words");
  return v;
}
}

PROPERTY("C03", viterbi_optimal, 12000, 200000) {
  Setup s; ref::GraphShape sh; sh.max_states = c.chance(1, 8) ? 24 : 9; sh.sinks = c.flip(); sh.spread = c.pick(std::vector<int>{8, 24, 40}); Generate(c, &s, false, sh, c.chance(1, 5) ? 50 : 10, c.pick(std::vector<int>{16, 40}));
  Verdict v = Decode(c, s, true, true); if (!v.empty && s.frames > 1 && s.g.narcs() > 2) c.nontrivial();
}
PROPERTY("C04", viterbi_optimal_with_lm, 8000, 120000) {
  Setup s; ref::GraphShape sh; sh.max_states = c.chance(1, 8) ? 16 : 7; sh.sinks = c.chance(1, 3); sh.spread = c.pick(std::vector<int>{8, 24}); sh.word_of_8 = 4; Generate(c, &s, true, sh, c.chance(1, 6) ? 30 : 9, c.pick(std::vector<int>{16, 40}));
  Verdict v = Decode(c, s, false, true); if (!v.empty && v.words > 0 && s.frames > 1) c.nontrivial();
}
// Graphs of thousands of states, with many arcs into the same state
namespace {
void LargeGraph(Case &c, Setup *s, bool lm, int max_states, int max_frames, const std::vector<int> &costs = {16, 40}) {
  pbt::Rng g(c.seed()); int n = c.range(30, max_states); s->tids = c.range(5, 60); s->words = c.range(lm ? 3 : 5, lm ? 12 : 400); s->frames = c.range(5, max_frames); s->with_lm = lm; Graph &gr = s->g; gr.arcs.resize(n); gr.final.assign(n, INFINITY); gr.start = g.upto(n - 1); int fan = c.range(1, 5), hubs = c.range(1, 20), eps8 = c.upto(3), wide = c.chance(1, 4);
  for (int i = 0; i < n; ++i) {
    int k = g.range(1, 2 * fan); if (wide && !g.upto(n / 3)) k = g.range(100, 1500);
    for (int j = 0; j < k; ++j) { bool e = static_cast<int>(g.upto(7)) < eps8 && i < n - 1; int next = e ? g.range(i + 1, std::min(n - 1, i + 40)) : g.upto(3) ? g.range(0, n - 1) : g.range(0, std::min(n, hubs) - 1); gr.arcs[i].push_back(ref::GArc{e ? 0 : g.range(1, s->tids), g.upto(2) ? 0 : g.range(1, s->words), g.range(e ? -4 : 0, 24) / 8.0, next}); }
    if (!g.upto(2)) gr.final[i] = g.range(0, 24) / 8.0;
  }
  s->a = GenAcoustic(c, s->tids, s->frames, c.pick(costs)); s->fst = gr.Make();
  if (lm) { s->d.bos = s->words - 1; s->d.eos = s->words; s->lm = ref::GenLm(c, ref::LmShape{s->words, s->d.bos, s->d.eos}, 10, true); s->d.lm = &s->lm; for (int i = 0; i <= s->words; ++i) s->d.small.push_back(c.range(-8, 64) / 8.0); s->files.Load(c, s->lm, s->d, s->words, true); }
  c.note(pbt::strf("%d states, %d arcs, %d frames, %d transitions, %d words%s", n, gr.narcs(), s->frames, s->tids, s->words, lm ? ", language model" : ""));
}
}
PROPERTY("C03", large_graphs, 60, 900, 120) { Setup s; LargeGraph(c, &s, false, 3000, 40); Verdict v = Decode(c, s, false, false); if (!v.empty) c.nontrivial(); }
PROPERTY("C04", large_graphs_with_lm, 40, 600, 120) { Setup s; LargeGraph(c, &s, true, 400, 20); Verdict v = Decode(c, s, false, false); if (!v.empty && v.words > 0) c.nontrivial(); }
PROPERTY("C05", large_pruned_search, 60, 900, 120) { Setup s; LargeGraph(c, &s, c.chance(1, 3), c.chance(1, 2) ? 3000 : 400, 20, {16, 40, 100, 200}); Verdict v = Decode(c, s, false, c.flip()); if (v.pruned || v.empty) c.nontrivial(); }
PROPERTY("C05", pruned_search, 12000, 200000) {
  bool lm = c.chance(1, 4); Setup s; ref::GraphShape sh; sh.max_states = 9; sh.sinks = c.flip(); sh.spread = c.pick(std::vector<int>{60, 120, 200}); Generate(c, &s, lm, sh, 9, c.pick(std::vector<int>{60, 200, 400}));
  Verdict v = Decode(c, s, false, true); if (v.pruned || v.empty) c.nontrivial();
}

// More tokens than the beam may hold. Branch i: start -> i (costs w_i), then stays there. One branch (the hero) is among
// the cheapest half of the limit and becomes by far the cheapest in the last frame, so it must survive until then.
PROPERTY("C05", crowded_beam, 100, 1200, 60) {
  int n = c.weighted({2, 2, 4, 1}), frames = c.range(1, 5); n = n == 0 ? c.range(20000, 30000) : n == 1 ? c.range(30001, 31500) : n == 2 ? c.range(30001, 60000) : c.range(60001, 120000);
  // Every branch may have a twin that it enters at a later frame, so that there are too many hypotheses again
  bool twins = c.chance(1, 3); if (twins) { frames = c.range(3, 7); n = std::min(n, 60000); }
  bool early = c.flip(); pbt::Rng g(c.seed()); Graph gr; gr.arcs.resize(twins ? 2 * n + 1 : n + 1); gr.final.assign(gr.arcs.size(), INFINITY);
  // The costs by rank, and the order in which the search meets the ranks
  int spread = c.pick(std::vector<int>{64, 4 * 64, 10 * 64}); std::vector<double> cost(n); for (auto &x : cost) x = g.range(0, spread) / 64.0; if (c.chance(1, 3)) for (int i = 0; i < n; ++i) cost[i] = std::floor(spread * (static_cast<double>(i) / n)) / 64.0;
  std::sort(cost.begin(), cost.end()); std::vector<int> rank(n); for (int i = 0; i < n; ++i) rank[i] = i; int order = c.upto(4);
  if (order == 0) for (int i = n - 1; i > 0; --i) std::swap(rank[i], rank[g.range(0, i)]);
  if (order == 2) std::reverse(rank.begin(), rank.end());
  if (order == 3) std::rotate(rank.begin(), rank.begin() + g.range(1, n - 1), rank.end());
  if (order == 4) { int k = c.range(100, 1000); std::vector<int> v; for (int b = 0; b < k; ++b) for (int i = b; i < n; i += k) v.push_back(rank[i]); rank = v; }
  int hero_rank = c.chance(1, 4) ? c.range(0, 100) : static_cast<int>(c.range(0, twins ? 6500 : 13000)), hero = 0, tids = 3; std::vector<double> w(n + 1);
  for (int i = 1; i <= n; ++i) { w[i] = cost[rank[i - 1]]; if (rank[i - 1] == hero_rank) hero = i; }
  for (int i = 1; i <= n; ++i) { bool h = i == hero; int il = h ? 2 : 1; gr.arcs[0].push_back(ref::GArc{early ? 1 : il, 1 + i % 50, w[i], i}); gr.arcs[i].push_back(ref::GArc{il, h ? 77 : 0, 0.0, i}); gr.final[i] = 0; if (twins && !h) { gr.arcs[i].push_back(ref::GArc{1, 0, g.range(0, 32) / 64.0, n + i}); gr.arcs[n + i].push_back(ref::GArc{1, 0, 0.0, n + i}); gr.final[n + i] = 0; } }
  Acoustic a; a.scale = 0.125f; a.pdfs = 3; a.map = {0, 0, 1, 2}; for (int t = 0; t < frames; ++t) { bool last = t + 1 == frames && frames > 1; a.logp.push_back({last ? -96 : -16, last ? 0 : -16, -100}); } a.Finish(tids);
  c.note(pbt::strf("%d branches in order %d, costs 0..%g, %d frames, hero %d of rank %d starts at %g", n, order, spread / 64.0, frames, hero, hero_rank, w[hero])); c.label(pbt::strf("order%d", order)); if (twins) c.label("twins"); if (n > 30000) { c.nontrivial(); c.label("beam overflows"); }
  auto f = gr.Make(); Decoder dec(f.get(), a.tid2pdf, a.scale); dec.Initialize(); double lo = cost[0];
  for (int t = 0; t < frames; ++t) { REQUIRE(dec.Process(a.Frame(t)), "Process() of frame %d of a crowded beam failed", t); }
  dec.EndOfStream(); Decoder::Hypothesis h = dec.BestPath(); std::vector<int> got = InOrder(h);
  if (frames > 1) {
    std::vector<int> want{1 + hero % 50}; for (int t = 1; t < frames; ++t) want.push_back(77);
    double expect = w[hero] + (frames - 1) * 2.0; REQUIRE(h.weight() == expect, "cost %.10g, expected %.10g: a hypothesis of rank %d of %d was lost", h.weight(), expect, hero_rank, n); REQUIRE(got == want, "result %s, expected %s", ref::Words(got).c_str(), ref::Words(want).c_str());
  } else {
    double expect = lo + 2.0; REQUIRE(h.weight() == static_cast<float>(expect), "cost %.10g, expected %.10g", h.weight(), expect); REQUIRE(got.size() == 1, "result %s", ref::Words(got).c_str());
    bool some = false; for (int i = 1; i <= n; ++i) if (w[i] == lo && 1 + i % 50 == got[0]) some = true; REQUIRE(some, "word %d does not belong to a cheapest branch", got[0]);
  }
}

// Long utterances: the word history is collected every 20 frames while the search goes on
PROPERTY("C06", long_history, 480, 6000, 60) {
  Setup s; ref::GraphShape sh; sh.max_states = c.range(2, 8); sh.sinks = false; sh.spread = c.pick(std::vector<int>{8, 24, 64}); sh.word_of_8 = c.pick(std::vector<int>{2, 4, 6}); bool lm = c.chance(1, 5);
  Generate(c, &s, lm, sh, 1, 8, c.flip() ? 6 : 40); s.frames = c.chance(1, 8) ? c.range(300, 1200) : c.range(21, 260); { Acoustic old = std::move(s.a); s.a = GenAcoustic(c, s.tids, s.frames, c.pick(std::vector<int>{24, 80, 200})); if (!s.word_of.empty()) s.Renumber(); } c.note(pbt::strf("%d frames", s.frames));
  ref::Search r(s.g, s.d, s.a.cost); r.Run(); Decoder dec(s.fst.get(), s.a.tid2pdf, s.a.scale, lm ? s.files.delta.get() : nullptr); Initialize(c, s, &dec); int next = 1; size_t longest = 0; Verdict v;
  for (int t = 0; t < s.frames; ++t) {
    bool ok = dec.Process(s.a.Frame(t)); if (!r.safe[t + 1].empty()) { REQUIRE(ok, "Process() of frame %d failed", t); REQUIRE(dec.NumFramesDecoded() == t + 1, "NumFramesDecoded() = %d after %d frames", dec.NumFramesDecoded(), t + 1); } else { c.label("beam lost"); }
    if (t + 1 == next || t + 1 == s.frames) { next = t + 1 + std::max(s.frames / 4, c.chance(1, 2) ? 20 : c.range(7, 60)); v = Verdict(); double best = r.Cheapest(r.best[t + 1], false); Decoder::Hypothesis h = dec.BestPath(); std::vector<int> w = InOrder(h, s); longest = std::max(longest, w.size());
      if (r.safe[t + 1].empty()) continue; double bound = r.Cheapest(r.safe[t + 1], false), forced = r.Forced(w, t + 1, false), got = h.weight();
      REQUIRE(got >= best && got <= bound, "after %d frames the cost is %.10g, cheapest path %.10g, within the beam %.10g", t + 1, got, best, bound);
      REQUIRE(got >= forced, "after %d frames the words %s cost %.10g, not %.10g", t + 1, ref::Words(w).c_str(), forced, got); if (got == best) REQUIRE(forced == got, "after %d frames the words %s cost %.10g, not %.10g", t + 1, ref::Words(w).c_str(), forced, got); }
  }
  dec.EndOfStream(); double best = r.Cheapest(r.best[s.frames], true), bound = r.Cheapest(r.safe[s.frames], true); Decoder::Hypothesis h = dec.BestPath(); std::vector<int> w = InOrder(h, s);
  if (std::isfinite(bound)) { double forced = r.Forced(w, s.frames, true), got = h.weight(); REQUIRE(got >= best && got <= bound && got >= forced && (got != best || forced == got), "final words %s cost %.10g by the decoder, %.10g by the reference (cheapest %.10g, within the beam %.10g)", ref::Words(w).c_str(), got, forced, best, bound); }
  if (!std::isfinite(best)) REQUIRE(w.empty() && h.weight() == 0, "a result without a complete path"); if (longest > 20) c.nontrivial(); c.label(longest > 200 ? "over 200 words" : longest > 20 ? "21-200 words" : "up to 20 words");
}

// Hours of speech: results of tens of thousands of words and frames
namespace {
#if defined(__SANITIZE_ADDRESS__)
const int kLong = 20000;
#else
const int kLong = 80000;
#endif
void Marathon(Case &c, bool lm, bool history) {
  Setup s; int n = c.range(1, 4); s.tids = c.range(2, 6); s.words = n * n + 2; s.with_lm = lm; pbt::Rng g(c.seed()); s.g = ref::CompleteGraph(&g, n, s.tids, c.pick(std::vector<int>{4, 16}));
  s.frames = !lm && kLong > 50000 && c.chance(1, 6) ? c.range(100001, 106000) : c.weighted({1, 2}) ? c.range(kLong / 2, kLong) : c.range(200, kLong / 2); s.a = GenAcoustic(c, s.tids, s.frames, c.pick(std::vector<int>{8, 24}));
  if (lm) { s.d.bos = s.words - 1; s.d.eos = s.words; ref::LmShape ls{s.words, s.d.bos, s.d.eos, 0.25f}; s.lm = ref::GenLm(c, ls, 4, true); s.d.lm = &s.lm; for (int i = 0; i <= s.words; ++i) s.d.small.push_back(c.range(-4, 16) / 8.0); s.files.Load(c, s.lm, s.d, s.words, true); }
  s.fst = s.g.Make(); ref::LongSearch r(s.g, s.d); Decoder dec(s.fst.get(), s.a.tid2pdf, s.a.scale, lm ? s.files.delta.get() : nullptr); dec.Initialize(); bool lost = false; int next = history ? c.range(20, 3000) : s.frames;
  c.note(pbt::strf("%d states, %d transitions, %d frames%s", n, s.tids, s.frames, lm ? ", language model" : ""));
  auto check = [&](bool end) {
    double gap, best = r.Best(end, &gap); Decoder::Hypothesis h = dec.BestPath(); std::vector<int> w = InOrder(h); int t = r.frames();
    if (!std::isfinite(best)) { REQUIRE(w.empty() && h.weight() == 0, "a result after %d frames without a complete path", t); return; }
    if (gap >= 16) { c.label("cheapest path may be pruned"); if (w.empty()) return; }
    double cost = r.Cost(w, end), got = h.weight(); REQUIRE(w.size() == static_cast<size_t>(t), "%zu words after %d frames in which every arc has a word", w.size(), t);
    REQUIRE(std::isfinite(cost), "the %zu words after %d frames are not those of a path", w.size(), t); REQUIRE(cost == got, "the words after %d frames cost %.10g, reported is %.10g", t, cost, got); REQUIRE(got >= best && (gap >= 16 || got == best), "cost %.10g after %d frames, the cheapest path costs %.10g", got, t, best);
    c.label(t > 100000 ? "more than 100000 words" : t > 65536 ? "more than 65536 words" : t > 32768 ? "more than 32768 words" : t > 4096 ? "more than 4096 words" : "up to 4096 words");
  };
  for (int t = 0; t < s.frames; ++t) {
    bool ok = dec.Process(s.a.Frame(t)); r.Push(s.a.cost[t]); double gap, best = r.Best(false, &gap); (void)best; lost = lost || !ok; if (gap < 16) REQUIRE(ok, "Process() of frame %d failed", t); if (lost) { c.label("search died"); return; }
    REQUIRE(dec.NumFramesDecoded() == t + 1, "NumFramesDecoded() = %d after %d frames", dec.NumFramesDecoded(), t + 1);
    if (t + 1 == next) { check(false); next += c.range(1, s.frames / 3); }
  }
  dec.EndOfStream(); check(true); if (s.frames > 100 && n > 1) c.nontrivial();
}
}
PROPERTY("C03", marathon, 16, 200, 120) { Marathon(c, false, false); }
PROPERTY("C04", marathon_with_lm, 16, 200, 120) { Marathon(c, true, false); }
PROPERTY("C06", marathon_history, 16, 200, 120) { Marathon(c, c.chance(1, 4), true); }

// ---------------------------------------------------------------- C10: the graph of the decoder

namespace {
void PutString(std::string *s, const std::string &x) { gen::Put<int32_t>(s, x.size()); *s += x; }
void PutSymbols(std::string *s, int n) { gen::Put<int32_t>(s, 2125658996); PutString(s, "t"); gen::Put<int64_t>(s, n); gen::Put<int64_t>(s, n); for (int i = 0; i < n; ++i) { PutString(s, i ? "s" + std::to_string(i) : "<eps>"); gen::Put<int64_t>(s, i); } }
void Align(std::string *s) { while (s->size() % 16) s->push_back('\0'); }
}

// An OpenFst file of type const, written from the description of the format, against what the decoder reads from it
PROPERTY("C10", hclg_files, 6000, 80000) {
  int n = c.chance(1, 60) ? c.range(1000, 20000) : c.range(1, 12), dens = c.range(0, 5); pbt::Rng g(c.seed()); Graph f; f.start = c.upto(n - 1); f.arcs.resize(n); size_t total = 0;
  for (int s = 0; s < n; ++s) { f.final.push_back(g.upto(2) ? INFINITY : g.range(-40, 40) / 4.0); int k = g.upto(2) ? g.upto(dens) : 0; for (int i = 0; i < k; ++i) f.arcs[s].push_back({g.upto(2) ? g.range(0, 1 << g.range(0, 20)) : 0, g.upto(2) ? 0 : g.range(0, 1 << g.range(0, 20)), g.range(-400, 4000) / 8.0, g.range(0, n - 1)}); total += k; }
  int version = c.flip() ? 2 : 1, flags = version == 2 && c.flip() ? 4 : 0; bool is = c.chance(1, 5), os = c.chance(1, 5); if (is) flags |= 1; if (os) flags |= 2;
  bool aligned = version == 1 || (flags & 4); int mode = c.weighted({6, 5, 1, 1, 1, 1}); std::string file, desc = "intact"; int32_t magic = 2125659606; std::string type = "const", arc = "standard"; int ver = version;
  switch (mode) { case 2: magic ^= 1 << c.upto(30); desc = "bad magic number"; break; case 3: type = c.pick(std::vector<std::string>{"vector", "const16", "const8", "cons", ""}); desc = "another type of transducer"; break; case 4: arc = c.pick(std::vector<std::string>{"log", "standardd", "log64", ""}); desc = "another type of arc"; break; case 5: ver = -static_cast<int>(c.upto(3)); desc = "obsolete version"; break; }
  gen::Put<int32_t>(&file, magic); PutString(&file, type); PutString(&file, arc); gen::Put<int32_t>(&file, ver); gen::Put<int32_t>(&file, flags); gen::Put<uint64_t>(&file, 1); gen::Put<int64_t>(&file, f.start); gen::Put<int64_t>(&file, n); gen::Put<int64_t>(&file, total);
  if (is) PutSymbols(&file, g.range(1, 9)); if (os) PutSymbols(&file, g.range(1, 9));
  if (aligned) Align(&file);
  uint32_t at = 0; for (int s = 0; s < n; ++s) { uint32_t ie = 0, oe = 0; for (auto &a : f.arcs[s]) ie += a.il == 0, oe += a.ol == 0; gen::Put<float>(&file, f.final[s]); gen::Put<uint32_t>(&file, at); gen::Put<uint32_t>(&file, f.arcs[s].size()); gen::Put<uint32_t>(&file, ie); gen::Put<uint32_t>(&file, oe); at += f.arcs[s].size(); }
  if (aligned) Align(&file);
  for (auto &v : f.arcs) for (auto &a : v) { gen::Put<int32_t>(&file, a.il); gen::Put<int32_t>(&file, a.ol); gen::Put<float>(&file, a.w); gen::Put<int32_t>(&file, a.next); }
  if (mode == 1) { size_t k = c.upto(file.size() - 1); file.resize(k); desc = pbt::strf("truncated to %zu bytes", k); }
  c.note(pbt::strf("%d states, %zu arcs, version %d flags %d, %s", n, total, version, flags, desc.c_str())); c.label(mode ? desc.substr(0, 12) : "intact"); if (total > 1 || mode) c.nontrivial();
  std::string path = c.dir() + "/g.fst"; gen::WriteFile(path, file); std::unique_ptr<fst::ConstFst<fst::StdArc>> t(fst::ConstFst<fst::StdArc>::Read(path));
  if (mode) { REQUIRE(!t, "the graph was read from a file that is not valid: %s", desc.c_str()); return; }
  REQUIRE(t != nullptr, "a valid graph of %d states and %zu arcs was not read", n, total); REQUIRE(t->Start() == f.start && t->NumStates() == n, "start %d of %d states, expected %d of %d", t->Start(), static_cast<int>(t->NumStates()), f.start, n);
  int seen = 0; for (fst::StateIterator<fst::ConstFst<fst::StdArc>> it(*t); !it.Done(); it.Next()) { REQUIRE(it.Value() == seen, "state iteration"); ++seen; } REQUIRE(seen == n, "%d states iterated, expected %d", seen, n);
  for (int s = 0; s < n; ++s) {
    REQUIRE(t->Final(s).Value() == static_cast<float>(f.final[s]), "Final(%d) = %g, expected %g", s, t->Final(s).Value(), f.final[s]); REQUIRE(t->NumArcs(s) == f.arcs[s].size(), "state %d has %zu arcs, expected %zu", s, t->NumArcs(s), f.arcs[s].size());
    size_t k = 0; for (fst::ArcIterator<fst::ConstFst<fst::StdArc>> it(*t, s); !it.Done(); it.Next(), ++k) { auto &a = it.Value(); REQUIRE(k < f.arcs[s].size(), "too many arcs of state %d", s); auto &e = f.arcs[s][k]; REQUIRE(a.ilabel == e.il && a.olabel == e.ol && a.weight.Value() == static_cast<float>(e.w) && a.nextstate == e.next, "arc %zu of state %d is %d:%d/%g -> %d, expected %d:%d/%g -> %d", k, s, a.ilabel, a.olabel, a.weight.Value(), a.nextstate, e.il, e.ol, e.w, e.next); }
    REQUIRE(k == f.arcs[s].size(), "%zu arcs of state %d iterated, expected %zu", k, s, f.arcs[s].size());
  }
}
