// A random complete recognizer (files on disk) and an independent reference of what it computes from samples
#ifndef VERIF_REF_MODEL_H_
#define VERIF_REF_MODEL_H_
#include <algorithm>
#include <set>
#include <string>
#include <vector>
#include "ce_stt.h"
#include "gen.h"
#include "ref_graph.h"
#include "ref_lm.h"
#include "ref_nnet.h"
#include "ref_signal.h"

namespace ref {

struct Model {
  Graph g; std::vector<RefLayer> net; int l = 0, r = 0, chunk = 1, pdfs = 1, tids = 1, words = 1; std::vector<float> prior; std::vector<int32_t> tid2pdf;
  std::vector<std::string> sym;      // word id -> text
  bool with_lm = false; Lm lm; DeltaLm d;
  std::vector<std::pair<std::string, std::string>> conf;   // in the order of the file
  std::string dir, config;

  std::string Symbols() const { std::string t; for (size_t i = 0; i < sym.size(); ++i) t += sym[i] + " " + std::to_string(i) + "\n"; return t; }
  void Write() {
    WriteFiles(); std::string t; for (auto &kv : conf) t += kv.first + " = " + kv.second + "\n"; gen::WriteFile(config, t);
  }
  void WriteFiles() {
    gen::WriteFile(dir + "/nnet", NetBytes(net, l, r)); gen::WriteFile(dir + "/prior", gen::VecBytes(prior)); gen::WriteFile(dir + "/tid2pdf", gen::VecBytes(tid2pdf)); gen::WriteFile(dir + "/words.txt", Symbols());
    auto f = g.Make(); if (!f->Write(dir + "/HCLG.fst")) abort();
    if (with_lm) { gen::WriteFile(dir + "/G.big", lm.Bytes()); std::vector<float> s; for (double x : d.small) s.push_back(static_cast<float>(x)); gen::WriteFile(dir + "/G.small", gen::VecBytes(s)); }
  }
  std::string Describe() const { return pbt::strf("graph of %d states and %d arcs, %s, context %d+%d, chunks of %d, %d pdfs%s", g.states(), g.narcs(), ref::Describe(net).c_str(), l, r, chunk, pdfs, with_lm ? ", language model" : ""); }
};

struct ModelShape { int lm_of_12 = 2; bool sinks = false; bool small = false; bool words_on_all = false; int large_of_40 = 0; };

// The same model with its words spread over a large vocabulary
inline void Spread(pbt::Case &c, Model *m, int size) {
  pbt::Rng g(c.seed()); std::set<int> used; while (static_cast<int>(used.size()) < m->words) used.insert(size - static_cast<int>(g.upto(g.upto(1) ? size - 1 : m->words * 2))); std::vector<int> id(used.begin(), used.end()); for (size_t i = id.size(); i > 1; --i) std::swap(id[i - 1], id[g.upto(i - 1)]); id.insert(id.begin(), 0);
  std::vector<std::string> sym{m->sym[0]}; for (int i = 1; i <= size; ++i) sym.push_back("v" + std::to_string(i)); for (int i = 1; i <= m->words; ++i) sym[id[i]] = m->sym[i];
  for (auto &a : m->g.arcs) for (auto &x : a) x.ol = id[x.ol];
  if (m->with_lm) { for (auto &a : m->lm.arcs) { std::map<int, LmArc> b; for (auto &kv : a) b[id[kv.first]] = kv.second; a = b; } std::vector<double> small(size + 1); for (auto &x : small) x = g.range(-8, 64) / 8.0; for (int i = 0; i <= m->words; ++i) small[id[i]] = m->d.small[i]; m->d.small = small; m->d.bos = id[m->d.bos]; m->d.eos = id[m->d.eos]; }
  m->sym = sym; m->words = size; c.label("large vocabulary");
}

inline void GenModel(pbt::Case &c, Model *m, const std::string &dir, const ModelShape &sh = ModelShape()) {
  m->dir = dir; m->config = dir + "/model.conf"; m->with_lm = c.chance(sh.lm_of_12, 12);
  int plain = c.range(2, 6); m->words = plain + 2; m->tids = c.range(2, 8); m->pdfs = c.range(2, 6);
  static const std::vector<std::string> alpha{"a", "b", "'", "\xe4\xbd\xa0", "\xc3\xa9", "{}", "-", "3", "<unk>", "#"};
  m->sym.push_back("<eps>"); for (int i = 1; i <= plain; ++i) m->sym.push_back(c.pick(alpha) + std::to_string(i) + (c.flip() ? c.pick(alpha) : "")); m->sym.push_back("<s>"); m->sym.push_back("</s>");
  GraphShape gs; gs.max_states = sh.small ? 4 : 8; gs.tids = m->tids; gs.words = plain; gs.dag_eps = true; gs.sinks = sh.sinks; gs.spread = c.pick(std::vector<int>{8, 24, 60}); gs.word_of_8 = c.pick(std::vector<int>{2, 4, 6}); m->g = GenGraph(c, gs);
  bool any = false; for (double f : m->g.final) any = any || std::isfinite(f); if (!any) m->g.final[m->g.states() - 1] = 0.5;
  for (int i = 0; i <= m->tids; ++i) m->tid2pdf.push_back(i == 0 ? 0 : static_cast<int>(c.upto(m->pdfs - 1)));
  m->l = c.range(0, 3); m->r = c.range(0, 3); m->chunk = c.chance(1, 3) ? c.range(1, 4) : c.range(1, 40);
  pbt::Rng g(c.seed()); int h = g.range(4, 20); bool norm = c.flip(), bn = c.flip();
  auto splice = [&]() { std::set<int> ix; ix.insert(0); for (int i = -m->l; i <= m->r; ++i) if (g.upto(1)) ix.insert(i); RefLayer s = Simple(6); s.idx.assign(ix.begin(), ix.end()); return s; };
  RefLayer in; in.type = 7; for (int i = 0; i < 40; ++i) { in.scale.push_back(0.3f); in.offset.push_back(static_cast<float>(-2 + 0.2 * g.gauss())); } m->net.push_back(in);
  int dim = 40; bool early = c.flip(); if (early) { RefLayer s = splice(); m->net.push_back(s); dim *= s.idx.size(); }
  m->net.push_back(Linear(&g, dim, h)); m->net.push_back(Simple(1)); dim = h; if (norm) m->net.push_back(Simple(2)); if (bn) m->net.push_back(BatchNorm(&g, dim));
  if (!early) { RefLayer s = splice(); m->net.push_back(s); dim *= s.idx.size(); }
  m->net.push_back(Linear(&g, dim, m->pdfs, c.pick(std::vector<double>{1, 4, 12}))); m->net.push_back(Simple(8)); if (m->l + m->r > 0 || c.flip()) { RefLayer n = Simple(9); n.nl = m->l; n.nr = m->r; m->net.insert(m->net.end() - (c.flip() ? 1 : 0), n); }
  bool rare = c.chance(1, 5); for (int i = 0; i < m->pdfs; ++i) m->prior.push_back(static_cast<float>(rare ? exp(-16 * g.unit()) : 0.02 + g.unit()));
  if (m->with_lm) {
    m->d.bos = plain + 1; m->d.eos = plain + 2; LmShape ls{m->words, m->d.bos, m->d.eos}; m->lm = GenLm(c, ls, 5, true); m->d.lm = &m->lm; for (int i = 0; i <= m->words; ++i) m->d.small.push_back(c.range(-8, 64) / 8.0);
  }
  if (sh.large_of_40 && c.chance(sh.large_of_40, 40)) Spread(c, m, c.pick(std::vector<int>{300, 5000, 40000, 70000, 140000}));
  auto file = [&](const char *n) { return c.flip() ? std::string(n) : dir + "/" + n; };
  m->conf = {{"fst", file("HCLG.fst")}, {"nnet", file("nnet")}, {"prior", file("prior")}, {"tid2pdf", file("tid2pdf")}, {"symbol_table", file("words.txt")}, {"left_context", std::to_string(m->l)}, {"right_context", std::to_string(m->r)}, {"chunk_size", std::to_string(m->chunk)}, {"num_pdfs", std::to_string(m->pdfs)}};
  if (m->with_lm) { m->conf.push_back({"large_lm", file("G.big")}); m->conf.push_back({"original_lm", file("G.small")}); }
}

// Audio as the bytes of one of the supported formats
struct Audio { int bits = 16; std::vector<float> x; std::string bytes; std::string kind; ce_wave_format_t Format() const { ce_wave_format_t f = {1, 16000, bits}; return f; } };
inline void GenAudio(pbt::Case &c, Audio *a, int max_frames, bool stable, int min_frames = 0) {
  int n = c.chance(1, 3) ? std::max(0, 400 + 160 * c.range(min_frames ? min_frames : stable ? 0 : -1, max_frames - 1) + c.range(stable ? 0 : -2, 2)) : c.range(min_frames ? 400 + 160 * min_frames : stable ? 400 : 0, 400 + 160 * max_frames);
  a->bits = c.pick(std::vector<int>{16, 16, 8, 32}); pbt::Rng g(c.seed()); int kind = c.weighted({5, 3, stable ? 0 : 2, stable ? 0 : 1}); const char *names[] = {"noise", "tones in noise", "bursts and silence", "silence"}; a->kind = names[kind];
  double amp = g.unit() < 0.3 ? 0.05 : 0.5, f1 = g.unit() * 2; int seg = 400 + g.upto(3000); double full = a->bits == 8 ? 127 : a->bits == 16 ? 32767 : 2147483520.0;
  for (int i = 0; i < n; ++i) {
    if (i % seg == 0) { amp = 0.03 + g.unit() * 0.3; f1 = g.unit() * 2; }
    double v = 0; switch (kind) { case 0: v = g.gauss() * amp; break; case 1: v = 0.05 * g.gauss() + amp * sin(f1 * i); break; case 2: v = (i / seg) % 2 ? g.gauss() * amp : 0; break; }
    v = rint(std::max(-1.0, std::min(1.0, v)) * full);
    if (a->bits == 8) { a->x.push_back(static_cast<float>(v)); a->bytes += static_cast<char>(static_cast<int>(v) + 128); }
    else if (a->bits == 16) { a->x.push_back(static_cast<float>(v)); gen::Put<int16_t>(&a->bytes, static_cast<int16_t>(v)); }
    else { int32_t q = static_cast<int32_t>(v); a->x.push_back(static_cast<float>(q)); gen::Put<int32_t>(&a->bytes, q); }
  }
}

// What the recognizer has to make of the samples: acoustic costs with error bounds, then an exhaustive search
struct Pipeline {
  Costs cost; double err = 0;     // err bounds the difference of any path cost over all the frames
  std::vector<double> frame_err;
  Pipeline(const Model &m, const std::vector<float> &x) {
    int n = NumFrames(x.size()); if (n == 0) return;
    EMat in(m.l + n + m.r, 40);
    for (int i = 0; i < in.r; ++i) {
      int t = std::min(std::max(i - m.l, 0), n - 1); if (i != m.l + t) { int src = m.l + t; if (src < i) { for (int j = 0; j < 40; ++j) { in.v[in.ix(i, j)] = in.v[in.ix(src, j)]; in.e[in.ix(i, j)] = in.e[in.ix(src, j)]; } continue; } }
      Feat f = FbankFrame(&x[static_cast<size_t>(t) * 160]);
      for (int j = 0; j < 40; ++j) { in.v[in.ix(i, j)] = f.mid[j]; in.e[in.ix(i, j)] = std::max(f.hi[j] - f.mid[j], f.mid[j] - f.lo[j]); }
    }
    StableLimit() = 1; EMat o = Run(m.net, in); const double scale = 0.1f;
    for (int t = 0; t < n; ++t) {
      std::vector<double> row(m.tids + 1, 0); double e = 0;
      for (int i = 1; i <= m.tids; ++i) { int p = m.tid2pdf[i]; double lp = o.v[o.ix(t, p)] - log(static_cast<double>(m.prior[p])); row[i] = -scale * lp; e = std::max(e, scale * (o.e[o.ix(t, p)] + 4 * kU * (fabs(lp) + 10))); }
      cost.push_back(row); frame_err.push_back(e); err += e;
    }
  }
};
inline std::vector<std::string> SplitWords(const std::string &s) { std::vector<std::string> w; if (s.empty()) return w; size_t p = 0; for (;;) { size_t q = s.find(' ', p); w.push_back(s.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 1; } return w; }

// Judges results of the recognizer by the costs of the pipeline and the search
struct Judge {
  const Model &m; Pipeline pipe; Search s; std::map<std::string, int> id;
  Judge(const Model &mm, const Audio &a, double limit, double worse = 1): m(mm), pipe(mm, a.x), s(mm.g, mm.d, pipe.cost) { pipe.err *= worse; s.kBeam = 15.9 - 2 * pipe.err; for (size_t i = 0; i < mm.sym.size(); ++i) id[mm.sym[i]] = i; if (pipe.err > limit) throw Unstable(); s.Run(); }
  std::vector<int> Ids(const std::string &hyp) { std::vector<int> w; for (auto &x : SplitWords(hyp)) { auto it = id.find(x); REQUIRE(it != id.end() && it->second > 0, "hypothesis '%s' has the unknown word '%s'", hyp.c_str(), x.c_str()); w.push_back(it->second); } return w; }
  double Tol(double x) const { return 1.01 * pipe.err + 1e-6 * (fabs(x) + pipe.cost.size()) + 1e-5; }
};
}  // namespace ref
#endif
