// C34 a model converted by the tools as the documentation says, from text files to recognition
#include <errno.h>
#include <stdlib.h>
#include <memory>
#include <set>
#include "ce_stt.h"
#include "gen.h"
#include "ref_model.h"
#include "run.h"

using pbt::Case;
using ref::Model;
using ref::Audio;

namespace {
std::string Env(const char *n) { const char *p = getenv(n); if (!p) { fprintf(stderr, "%s is not set\n", n); abort(); } return p; }
// What the tool printed
std::string Run(Case &c, const char *tool, std::vector<std::string> args, const std::string &in = "", const std::string &out = "") {
  args.insert(args.begin(), Env("PBT_TOOLS") + "/" + tool); args.insert(args.begin(), "-B"); args.insert(args.begin(), Env("PBT_PYTHON")); std::string err = c.dir() + "/stderr", o = out.empty() ? c.dir() + "/stdout" : out;
  gen::Ran r = gen::RunProgram(args, in, o, err); std::string e = gen::ReadAll(err); if (e.size() > 300) e = e.substr(e.size() - 300);
  REQUIRE(r.exited && r.code == 0, "%s failed with status %d: %s", tool, r.code, gen::Esc(e, 300).c_str()); return gen::ReadAll(o);
}
std::string Num(double v) { char b[64]; snprintf(b, sizeof b, "%.9g", v); return b; }
std::string Row(const std::vector<double> &v) { std::string s = " [ "; for (double x : v) s += Num(x) + " "; return s + "]\n"; }

// A network of the components convert_am.py knows, as Kaldi writes it and as the reference runs it
struct Kaldi {
  std::vector<ref::RefLayer> net; std::string nodes, comps, prev = "input"; int count = 0, dim, left = 0, right = 0;
  explicit Kaldi(int in): dim(in) { nodes = "input-node name=input dim=" + std::to_string(in) + "\n"; }
  void Node(const std::string &name, const std::string &input) { nodes += "component-node name=" + name + " component=" + name + " input=" + input + "\n"; prev = name; ++count; }
  void Plain(const std::string &name, const char *kind, int type) { Node(name, prev); comps += "<ComponentName> " + name + " <" + kind + "> <Dim> " + std::to_string(dim) + " </" + kind + "> "; net.push_back(ref::Simple(type)); }
  std::string Splice(const std::vector<int> &idx) {
    std::string s = "Append("; for (size_t i = 0; i < idx.size(); ++i) { if (i) s += ", "; s += idx[i] ? "Offset(" + prev + ", " + std::to_string(idx[i]) + ")" : prev; }
    ref::RefLayer sp = ref::Simple(6); sp.idx = idx; net.push_back(sp); ref::RefLayer na = ref::Simple(9); na.nl = -std::min(*std::min_element(idx.begin(), idx.end()), 0); na.nr = std::max(*std::max_element(idx.begin(), idx.end()), 0); net.push_back(na); left += na.nl; right += na.nr; dim *= idx.size(); return s + ")";
  }
  void Affine(pbt::Rng *g, const std::string &name, const std::string &input, int to, double gain) {
    ref::RefLayer l = ref::Linear(g, dim, to, gain); Node(name, input); comps += "<ComponentName> " + name + " <NaturalGradientAffineComponent> <MaxChange> 0.75 <LearningRate> 0.001 <LinearParams>  [\n";
    for (int j = 0; j < to; ++j) { comps += "  "; for (int i = 0; i < dim; ++i) comps += Num(l.W.at(i, j)) + " "; comps += j + 1 < to ? "\n" : "]\n"; }
    comps += "<BiasParams> " + Row(std::vector<double>(l.b.begin(), l.b.end())) + "<RankIn> 20 <RankOut> 80 <UpdatePeriod> 4 <NumSamplesHistory> 2000 <Alpha> 4 <IsGradient> F </NaturalGradientAffineComponent> "; net.push_back(l); dim = to;
  }
  void Norm(pbt::Rng *g, const std::string &name, double m, double v) {
    Node(name, prev); std::vector<double> mean, var; double eps = g->upto(1) ? 0.001 : 1e-05, rms = g->upto(1) ? 1 : 0.5 + g->unit(); rms = strtod(Num(rms).c_str(), nullptr); ref::RefLayer l; l.type = 7;
    for (int i = 0; i < dim; ++i) { mean.push_back(strtod(Num(m + 0.3 * g->gauss()).c_str(), nullptr)); var.push_back(strtod(Num(v * (0.5 + g->unit())).c_str(), nullptr)); double sc = rms / sqrt(var[i] + eps); l.scale.push_back(static_cast<float>(sc)); l.offset.push_back(static_cast<float>(-mean[i] * sc)); }
    net.push_back(l); comps += "<ComponentName> " + name + " <BatchNormComponent> <Dim> " + std::to_string(dim) + " <BlockDim> " + std::to_string(dim) + " <Epsilon> " + Num(eps) + " <TargetRms> " + Num(rms) + " <TestMode> F <Count> 1000 <StatsMean> " + Row(mean) + "<StatsVar> " + Row(var) + "</BatchNormComponent> ";
  }
  std::string Text(const std::vector<float> &prior) { return "<TransitionModel> \n</TransitionModel> \n<Nnet3> \n" + nodes + "output-node name=output input=" + prev + " objective=linear\n\n<NumComponents> " + std::to_string(count) + " \n" + comps + "</Nnet3> <LeftContext> " + std::to_string(left) + " <RightContext> " + std::to_string(right) + " <Priors> " + Row(std::vector<double>(prior.begin(), prior.end())); }
};
}

PROPERTY("C34", converted_model, 400, 6000) {
  Model m; ref::ModelShape sh; sh.lm_of_12 = 8; sh.large_of_40 = 3; GenModel(c, &m, c.dir(), sh); pbt::Rng g(c.seed()); std::string d = c.dir();
  // The acoustic model
  Kaldi k(40); k.Norm(&g, "input.batchnorm", 6.7, 11); int blocks = c.range(0, 2);
  auto input = [&]() { if (c.chance(1, 4)) return k.prev; std::set<int> s; int n = c.chance(1, 6) ? c.range(4, 7) : c.range(1, 3); for (int i = 0; i < n; ++i) s.insert(c.range(-2, 2)); std::vector<int> v(s.begin(), s.end()); if (c.flip()) for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[g.upto(i - 1)]); return k.Splice(v); };
  for (int b = 0; b < blocks; ++b) { std::string n = "tdnn" + std::to_string(b + 1); std::string in = input(); k.Affine(&g, n + ".affine", in, g.range(4, 14), 1); if (c.chance(3, 4)) k.Plain(n + ".relu", "RectifiedLinearComponent", 1); if (c.flip()) k.Norm(&g, n + ".batchnorm", 0.4, 0.5); }
  { std::string in = input(); k.Affine(&g, "output.affine", in, m.pdfs, c.pick(std::vector<double>{1, 4})); k.Plain("output.log-softmax", "LogSoftmaxComponent", 8); }
  m.net = k.net; m.l = k.left; m.r = k.right; for (auto &p : m.prior) p = static_cast<float>(strtod(Num(p).c_str(), nullptr));
  gen::WriteFile(d + "/am.txt", k.Text(m.prior)); std::string said = Run(c, "convert_am.py", {d + "/am.txt", d + "/am"}); int l = -1, r = -1; size_t at = said.find("left_context = "); REQUIRE(at != std::string::npos && sscanf(&said[at], "left_context = %d, right_context = %d", &l, &r) == 2, "convert_am.py does not say the context"); REQUIRE(l == m.l && r == m.r, "convert_am.py says context %d and %d, expected %d and %d", l, r, m.l, m.r);
  // Transitions
  std::string t = std::to_string(m.pdfs) + "\n" + std::to_string(m.tids) + "\n"; for (int i = 0; i <= m.tids; ++i) t += std::to_string(i) + " " + std::to_string(m.tid2pdf[i]) + "\n"; gen::WriteFile(d + "/t2pdf.txt", t); said = Run(c, "convert_trans.py", {d + "/t2pdf.txt", d + "/t2pdf.bin"}); int pdfs = -1; at = said.find("num_pdfs = "); REQUIRE(at != std::string::npos && sscanf(&said[at], "num_pdfs = %d", &pdfs) == 1, "convert_trans.py does not say the number of pdfs");
  gen::WriteFile(d + "/words.txt", m.Symbols()); auto f = m.g.Make(); if (!f->Write(d + "/HCLG.fst")) abort();
  // Language models: the words are taken back from the graph with the unigram, the large model is applied
  bool prune = false; if (m.with_lm) {
    int order = c.range(1, 2); char sep = c.flip() ? '\t' : ' '; std::string uni; m.d.small.assign(m.words + 1, 0.0);
    for (int i = 1; i <= m.words; ++i) { double p = strtod(Num(i == m.d.bos ? -99 : -g.unit() * 5).c_str(), nullptr); m.d.small[i] = i == m.d.bos ? 0 : -p * log(10.0); uni += Num(p) + sep + m.sym[i]; if (order > 1 && i != m.d.eos) uni += sep + Num(-g.unit()); uni += "\n"; }
    t = "\n\\data\\\nngram 1=" + std::to_string(m.words) + "\n"; if (order > 1) t += "ngram 2=1\n"; t += "\n\\1-grams:\n" + uni + "\n"; if (order > 1) t += "\\2-grams:\n-0.5" + std::string(1, sep) + "<s> " + m.sym[1] + "\n\n"; t += "\\end\\\n"; gen::WriteFile(d + "/lm.arpa", t); std::string lm = d + "/lm.arpa"; prune = c.chance(1, 3); if (prune) { Run(c, "prune_lm.py", {}, lm, d + "/pruned.arpa"); lm = d + "/pruned.arpa"; }
    Run(c, "convert_unigram.py", {lm, d + "/words.txt", d + "/small.bin"});
    t = "start " + std::to_string(m.lm.start) + "\nstates " + std::to_string(m.lm.states()) + "\n"; for (int s = 0; s < m.lm.states(); ++s) { if (std::isfinite(m.lm.final[s])) t += "final " + std::to_string(s) + " " + Num(m.lm.final[s]) + "\n"; std::vector<std::string> a; for (auto &kv : m.lm.arcs[s]) a.push_back(pbt::strf("arc %d %d %d %d %s\n", s, kv.second.next, kv.first, kv.first, Num(kv.second.w).c_str())); for (size_t i = a.size(); i > 1; --i) std::swap(a[i - 1], a[g.upto(i - 1)]); for (auto &x : a) t += x; }
    gen::WriteFile(d + "/G.txt", t); Run(c, "convert_fstfmt.py", {d + "/G.txt", d + "/G.bin"});
  }
  t = "fst = HCLG.fst\nnnet = am.nnet\nprior = am.prior\ntid2pdf = t2pdf.bin\nsymbol_table = words.txt\nleft_context = " + std::to_string(l) + "\nright_context = " + std::to_string(r) + "\nchunk_size = " + std::to_string(m.chunk) + "\nnum_pdfs = " + std::to_string(pdfs) + "\n"; if (m.with_lm) t += "large_lm = G.bin\noriginal_lm = small.bin\n"; gen::WriteFile(m.config, t);
  Audio a; GenAudio(c, &a, c.chance(1, 4) ? 90 : 30, true); c.note(m.Describe()); c.note(pbt::strf("%zu samples of %d-bit %s", a.x.size(), a.bits, a.kind.c_str())); if (m.with_lm) c.label(prune ? "language model, pruned unigrams" : "language model"); if (m.l + m.r) c.label("context");
  struct Stt { ce_stt_t *p; ~Stt() { if (p) ce_stt_destroy(p); } } stt{ce_stt_init(m.config.c_str())}; REQUIRE(stt.p, "ce_stt_init: %s", ce_stt_last_error()); ce_wave_format_t fmt = a.Format(); struct Utt { ce_utt_t *p; ~Utt() { if (p) ce_utt_destroy(p); } } utt{ce_utt_init(stt.p, &fmt)}; REQUIRE(utt.p, "ce_utt_init: %s", ce_stt_last_error());
  size_t by = a.bits / 8; for (size_t p = 0; p < a.bytes.size();) { size_t n = std::min(a.bytes.size() - p, by * static_cast<size_t>(g.range(400, 8000))); REQUIRE(ce_stt_process(utt.p, &a.bytes[p], n) == static_cast<int>(n / by), "ce_stt_process: %s", ce_stt_last_error()); p += n; } ce_stt_end_of_stream(utt.p); std::string hyp = utt.p->hyp; int frames = ref::NumFrames(a.x.size());
  std::unique_ptr<ref::Judge> j; try { j.reset(new ref::Judge(m, a, 2, 4)); } catch (ref::Unstable &) { throw pbt::Discard(); }
  std::vector<int> w = j->Ids(hyp); double best = j->s.Cheapest(j->s.best[frames], true), bound = j->s.Cheapest(j->s.safe[frames], true); if (!std::isfinite(best)) { REQUIRE(w.empty(), "result '%s' but the model has no complete path", hyp.c_str()); c.label("no complete path"); return; }
  if (!std::isfinite(bound) && w.empty()) return; double tol = j->Tol(best), forced = j->s.Forced(w, frames, true); REQUIRE(std::isfinite(forced), "no path of %d frames outputs '%s'", frames, hyp.c_str());
  if (std::isfinite(bound)) REQUIRE(forced <= bound + 2 * tol, "result '%s' costs %.8g in the model, but a path within the beam costs %.8g (tolerance %.2g)", hyp.c_str(), forced, bound, 2 * tol);
  if (!w.empty()) { double got = static_cast<double>(utt.p->loglikelihood_per_frame) * frames, t2 = tol + 1e-6 * fabs(got); REQUIRE(got >= forced - t2, "score of '%s' is %.8g over %d frames, its cheapest path in the model costs %.8g (tolerance %.2g)", hyp.c_str(), got, frames, forced, t2); if (std::isfinite(bound)) REQUIRE(got <= bound + t2, "score of '%s' is %.8g over %d frames, a path within the beam costs %.8g (tolerance %.2g)", hyp.c_str(), got, frames, bound, t2); c.label("scored"); if (w.size() > 1) c.nontrivial(); }
}
