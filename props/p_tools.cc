// C29 the conversion tools against the loaders of the library, C08 word tables and transcripts
#include <errno.h>
#include <stdlib.h>
#include <memory>
#include <set>
#include "fst.h"
#include "gen.h"
#include "matrix.h"
#include "nnet.h"
#include "ref_lm.h"
#include "ref_nnet.h"
#include "run.h"
#include "symbol_table.h"
#include "util.h"
#include "vector.h"

using namespace pocketkaldi;
using pbt::Case;

namespace {
std::string Tool(const char *name) { const char *p = getenv("PBT_TOOLS"); if (!p) { fprintf(stderr, "PBT_TOOLS is not set\n"); abort(); } return std::string(p) + "/" + name; }
std::string Python() { const char *p = getenv("PBT_PYTHON"); if (!p) { fprintf(stderr, "PBT_PYTHON is not set\n"); abort(); } return p; }
void Run(Case &c, const char *tool, std::vector<std::string> args, const std::string &in = "", const std::string &out = "") {
  args.insert(args.begin(), Tool(tool)); args.insert(args.begin(), "-B"); args.insert(args.begin(), Python()); std::string err = c.dir() + "/stderr";
  gen::Ran r = gen::RunProgram(args, in, out.empty() ? c.dir() + "/stdout" : out, err); std::string e = gen::ReadAll(err); if (e.size() > 300) e = e.substr(e.size() - 300);
  REQUIRE(r.exited && r.code == 0, "%s failed with status %d: %s", tool, r.code, gen::Esc(e, 300).c_str());
}
template <typename V> void Load(const std::string &path, V *v) { util::ReadableFile fd; REQUIRE(fd.Open(path).ok(), "cannot open %s", path.c_str()); Status st = v->Read(&fd); REQUIRE(st.ok(), "the loader rejects the converted file: %s", st.what().c_str()); char b; fd.Read(&b, 0); }
std::string Num(double v) { char b[64]; snprintf(b, sizeof b, "%.7g", v); return b; }
// A number the way Kaldi prints it, and its value
double Value(pbt::Rng *g, double scale) { double v = g->gauss() * scale; if (g->upto(20) == 0) v *= 1e-6; if (g->upto(40) == 0) v = rint(v); return strtod(Num(v).c_str(), nullptr); }
bool Near(double a, double b) { return a == b || fabs(a - b) <= 1e-6 * (fabs(a) + fabs(b)) + 1e-30; }
}

PROPERTY("C29", tid2pdf_table, 160, 3000) {
  int n = c.range(1, 60), pdfs = c.range(1, 40); if (c.chance(1, 12)) { n = c.range(60, 20000); pdfs = c.flip() ? c.range(40, 9000) : c.range(60000, 200000); } pbt::Rng g(c.seed()); std::string t = std::to_string(pdfs) + "\n" + std::to_string(n) + "\n"; std::vector<int> map{0}; t += "0 " + std::string(c.flip() ? "0" : "0") + "\n";
  for (int i = 1; i <= n; ++i) { map.push_back(g.range(0, pdfs - 1)); t += std::to_string(i) + " " + std::to_string(map[i]) + "\n"; }
  gen::WriteFile(c.dir() + "/t.txt", t); Run(c, "convert_trans.py", {c.dir() + "/t.txt", c.dir() + "/t.bin"}); Vector<int32_t> v; Load(c.dir() + "/t.bin", &v); c.note(pbt::strf("%d transitions", n)); c.nontrivial();
  REQUIRE(v.Dim() == n + 1, "%d entries for %d transitions", v.Dim(), n); for (int i = 1; i <= n; ++i) REQUIRE(v(i) == map[i], "transition %d maps to %d, expected %d", i, v(i), map[i]);
}

PROPERTY("C29", cmvn_statistics, 120, 2000) {
  pbt::Rng g(c.seed()); double mag = c.pick(std::vector<double>{1, 1e3, 1e7, 1e-3}); std::vector<double> row1, row2; for (int i = 0; i < 41; ++i) { double a = Value(&g, mag), b = Value(&g, mag * mag); if (i == 40) { a = 1 + g.upto(1000000); b = 0; } row1.push_back(a); row2.push_back(b); }
  std::string t = c.flip() ? " [\n  " : "[\n "; for (double x : row1) t += Num(x) + " "; t += "\n  "; for (double x : row2) t += Num(x) + " "; t += "]\n";
  gen::WriteFile(c.dir() + "/s.txt", t); Run(c, "convert_cmvn_stats.py", {c.dir() + "/s.txt", c.dir() + "/s.bin"}); Vector<float> v; Load(c.dir() + "/s.bin", &v); c.note(pbt::strf("magnitude %g", mag)); c.nontrivial();
  REQUIRE(v.Dim() == 41, "%d statistics", v.Dim()); for (int i = 0; i < 41; ++i) REQUIRE(Near(v(i), strtod(Num(row1[i]).c_str(), nullptr)), "statistic %d is %.8g, expected %.8g", i, v(i), row1[i]);
}

PROPERTY("C29", unigram_costs, 160, 3000) {
  int words = c.range(2, 25); if (c.chance(1, 12)) words = c.range(25, 6000); pbt::Rng g(c.seed()); std::vector<int> ids; int next = 1; for (int i = 0; i < words; ++i) { ids.push_back(next); next += 1 + (g.upto(5) == 0); }
  std::vector<std::string> w; for (int i = 0; i < words; ++i) { static const char *pre[] = {"w", "w", "W", "\xe4\xb8\xad", "\xc3\xa9'", "Ab-", "\\", "#", "1.", "-", "<x>", "n="}; w.push_back(pre[g.upto(11)] + std::to_string(i)); } w[0] = "<s>"; w[1] = "</s>"; std::string vocab = "<eps> 0\n"; for (int i = 0; i < words; ++i) vocab += w[i] + " " + std::to_string(ids[i]) + "\n";
  int order = c.range(1, 3); bool unk = c.flip(); std::vector<double> lp(words, INFINITY); std::string uni; int count = 0; char sep = c.flip() ? '\t' : ' ';
  for (int i = 0; i < words; ++i) { if (i > 1 && g.upto(4) == 0) continue; double p = i == 0 ? -99 : g.upto(15) ? -g.unit() * 6 : g.upto(1) ? 0 : -1e-5 * g.unit(); p = strtod(Num(p).c_str(), nullptr); lp[i] = p; ++count; uni += Num(p) + sep + w[i]; if (order > 1 && i != 1) uni += sep + Num(-g.unit()); uni += "\n"; } if (unk) { uni += std::string("-2.5") + sep + "<unk>\n"; ++count; }
  std::string t = c.flip() ? "\n" : ""; t += "\\data\\\nngram 1=" + std::to_string(count) + "\n"; int n2 = g.range(1, 6); for (int o = 2; o <= order; ++o) t += "ngram " + std::to_string(o) + "=" + std::to_string(n2) + "\n"; t += "\n\\1-grams:\n" + uni + "\n";
  for (int o = 2; o <= order; ++o) { t += "\\" + std::to_string(o) + "-grams:\n"; for (int k = 0; k < n2; ++k) { t += Num(-g.unit() * 3); for (int q = 0; q < o; ++q) t += (q ? ' ' : sep) + w[g.range(0, words - 1)]; t += "\n"; } t += "\n"; } t += "\\end\\\n";
  std::string d = c.dir(); gen::WriteFile(d + "/lm.arpa", t); gen::WriteFile(d + "/vocab", vocab); bool prune = c.chance(1, 3); std::string lm = d + "/lm.arpa"; if (prune) { Run(c, "prune_lm.py", {}, lm, d + "/pruned.arpa"); lm = d + "/pruned.arpa";
    // The pruned model is a unigram ARPA file: its only count is that of the unigrams, which are all there with their probabilities
    std::string cur, text = gen::ReadAll(lm); int part = 0, said = -1, orders = 0, seen = 0; bool ended = false; std::set<std::string> got; for (size_t at = 0; at < text.size();) {
      size_t nl = text.find('\n', at); if (nl == std::string::npos) nl = text.size(); cur = text.substr(at, nl - at); at = nl + 1; while (!cur.empty() && isspace(static_cast<unsigned char>(cur.back()))) cur.pop_back(); if (cur.empty()) continue; REQUIRE(!ended, "the pruned model goes on after its end: '%s'", gen::Esc(cur).c_str());
      if (cur == "\\data\\") { REQUIRE(part == 0, "second \\data\\"); part = 1; } else if (cur == "\\1-grams:") { REQUIRE(part == 1, "1-grams before \\data\\"); part = 2; } else if (cur == "\\end\\") ended = true; else if (part == 1) { int o = 0, n = 0; REQUIRE(sscanf(cur.c_str(), "ngram %d = %d", &o, &n) == 2, "unexpected line '%s'", gen::Esc(cur).c_str()); ++orders; REQUIRE(o == 1, "the pruned model announces order %d", o); said = n; }
      else { REQUIRE(part == 2, "unexpected line '%s'", gen::Esc(cur).c_str()); char p[64], wd[512]; REQUIRE(sscanf(cur.c_str(), "%63s %511s", p, wd) == 2, "unexpected line '%s'", gen::Esc(cur).c_str()); ++seen; int i = -1; for (int q = 0; q < words; ++q) if (w[q] == wd) i = q; double e = i >= 0 ? lp[i] : -2.5; REQUIRE(i >= 0 || (unk && std::string(wd) == "<unk>"), "unknown word '%s' in the pruned model", gen::Esc(wd).c_str()); REQUIRE(Near(strtod(p, nullptr), e), "'%s' has the log probability %s, expected %g", gen::Esc(wd).c_str(), p, e); REQUIRE(got.insert(wd).second, "'%s' is there twice", gen::Esc(wd).c_str()); }
    }
    REQUIRE(ended && orders == 1, "the pruned model announces %d orders and %s", orders, ended ? "ends" : "does not end"); REQUIRE(said == count && seen == count, "the pruned model announces %d words and has %d, expected %d", said, seen, count); }
  Run(c, "convert_unigram.py", {lm, d + "/vocab", d + "/u.bin"}); Vector<float> v; Load(d + "/u.bin", &v); SymbolTable sym; REQUIRE(sym.Read(d + "/vocab").ok(), "the loader rejects the vocabulary"); c.note(pbt::strf("%d words, order %d%s", words, order, prune ? ", pruned" : "")); c.label(prune ? "pruned" : "direct"); c.nontrivial();
  REQUIRE(v.Dim() == ids.back() + 1, "%d costs, expected %d", v.Dim(), ids.back() + 1);
  for (int i = 0; i < words; ++i) { double e = i == 0 ? 0 : std::isinf(lp[i]) ? INFINITY : -lp[i] * log(10.0); float x = v(sym.GetId(w[i])); REQUIRE(Near(x, e), "cost of '%s' is %.8g, expected %.8g", w[i].c_str(), x, e); }
}

PROPERTY("C29", language_model, 160, 3000) {
  ref::LmShape sh; sh.words = c.range(2, 8); sh.bos = 1; sh.eos = 2; ref::Lm lm = ref::GenLm(c, sh, 8, c.flip()); pbt::Rng g(c.seed()); std::vector<int> all; if (c.chance(1, 3)) { std::set<int> u; while (static_cast<int>(u.size()) < sh.words) u.insert(g.upto(3) ? g.range(1, 150000) : g.range(32760, 32775)); std::vector<int> id(u.begin(), u.end()); for (auto &m : lm.arcs) { std::map<int, ref::LmArc> n; for (auto &kv : m) n[kv.first ? id[kv.first - 1] : 0] = kv.second; m = n; } all = id; c.label("large word ids"); } else for (int w = 1; w <= sh.words; ++w) all.push_back(w); std::string t = "start " + std::to_string(lm.start) + "\nstates " + std::to_string(lm.states()) + "\n";
  for (int s = 0; s < lm.states(); ++s) { if (std::isfinite(lm.final[s])) t += "final " + std::to_string(s) + " " + Num(lm.final[s]) + "\n"; std::vector<std::string> a; for (auto &kv : lm.arcs[s]) a.push_back(pbt::strf("arc %d %d %d %d %s\n", s, kv.second.next, kv.first, kv.first, Num(kv.second.w).c_str())); for (size_t i = a.size(); i > 1; --i) std::swap(a[i - 1], a[g.upto(i - 1)]); for (auto &x : a) t += x; }
  std::string d = c.dir(); gen::WriteFile(d + "/g.txt", t); std::vector<std::string> args{d + "/g.txt", d + "/g.bin"}; if (c.flip()) args.push_back("binary"); Run(c, "convert_fstfmt.py", args); c.note(pbt::strf("%d states", lm.states())); c.nontrivial(); LmFst f; Load(d + "/g.bin", &f); if (c.flip()) f.InitBucket0();
  REQUIRE(f.StartState() == lm.start, "start state %d, expected %d", f.StartState(), lm.start);
  for (int s = 0; s < lm.states(); ++s) { double e = lm.Final(s); float x = f.Final(s); REQUIRE(Near(x, e), "final cost of state %d is %g, expected %g", s, x, e); for (int w : all) { int n; double cost; bool ok = lm.Get(s, w, &n, &cost); FstArc a; bool got = f.GetArc(s, w, &a); REQUIRE(got == ok, "word %d from state %d: found=%d, expected %d", w, s, got, ok); if (ok) REQUIRE(a.next_state == n && Near(a.weight, cost), "word %d from state %d leads to %d with cost %g, expected %d with %g", w, s, a.next_state, a.weight, n, cost); } }
}

PROPERTY("C29", acoustic_model, 200, 4000) {
  pbt::Rng g(c.seed()); int in = g.range(1, 8), dim = in, blocks = c.range(1, 3), left = 0, right = 0, k = 0; std::vector<ref::RefLayer> net; std::string nodes = "input-node name=input dim=" + std::to_string(in) + "\n", comps; std::string prev = "input"; int nc = 0;
  auto vec = [&](const std::vector<double> &v) { std::string s = " [ "; for (double x : v) s += Num(x) + " "; return s + "]\n"; };
  auto node = [&](const std::string &name, const std::string &input) { nodes += "component-node name=" + name + " component=" + name + " input=" + input + "\n"; prev = name; ++nc; };
  auto affine = [&](const std::string &name, int from, int to) {
    ref::RefLayer l = ref::Linear(&g, from, to); comps += "<ComponentName> " + name + " <NaturalGradientAffineComponent> <MaxChange> 0.75 <LearningRate> 0.001 <LinearParams>  [\n"; for (int j = 0; j < to; ++j) { comps += "  "; for (int i = 0; i < from; ++i) { double v = Value(&g, 1.0); l.W.at(i, j) = static_cast<float>(v); comps += Num(v) + " "; } comps += j + 1 < to ? "\n" : "]\n"; }
    std::vector<double> b; for (int j = 0; j < to; ++j) { b.push_back(Value(&g, 0.3)); l.b[j] = static_cast<float>(b[j]); } comps += "<BiasParams> " + vec(b) + "<RankIn> 20 <RankOut> 80 <UpdatePeriod> 4 <NumSamplesHistory> 2000 <Alpha> 4 <IsGradient> F </NaturalGradientAffineComponent> "; net.push_back(l);
  };
  for (int b = 0; b < blocks; ++b) {
    std::string name = "tdnn" + std::to_string(b + 1) + ".affine", input = prev; if (c.chance(2, 3)) {
      std::vector<int> idx; std::set<int> s; bool many = c.chance(1, 5); int m = many ? c.range(4, 9) : c.range(1, 3), far = many ? 9 : 3; for (int i = 0; i < m; ++i) s.insert(c.range(-far, far)); idx.assign(s.begin(), s.end()); if (c.chance(1, 4)) { for (size_t i = idx.size(); i > 1; --i) std::swap(idx[i - 1], idx[g.upto(i - 1)]); if (c.flip()) idx.push_back(idx[g.upto(idx.size() - 1)]); c.label("any order"); } input = "Append("; for (size_t i = 0; i < idx.size(); ++i) { if (i) input += ", "; input += idx[i] ? "Offset(" + prev + ", " + std::to_string(idx[i]) + ")" : prev; } input += ")";
      ref::RefLayer sp = ref::Simple(6); sp.idx = idx; net.push_back(sp); ref::RefLayer na = ref::Simple(9); na.nl = -std::min(*std::min_element(idx.begin(), idx.end()), 0); na.nr = std::max(*std::max_element(idx.begin(), idx.end()), 0); net.push_back(na); left += na.nl; right += na.nr; dim *= idx.size(); k += 1;
    }
    int to = g.range(1, 10); node(name, input); affine(name, dim, to); dim = to;
    if (c.flip()) { std::string r = "tdnn" + std::to_string(b + 1) + ".relu"; node(r, prev); comps += "<ComponentName> " + r + " <RectifiedLinearComponent> <Dim> " + std::to_string(dim) + " </RectifiedLinearComponent> "; net.push_back(ref::Simple(1)); }
    if (c.flip()) {
      std::string r = "tdnn" + std::to_string(b + 1) + ".batchnorm"; node(r, prev); std::vector<double> mean, var; double eps = c.pick(std::vector<double>{0.001, 1e-05, 0.1}), rms = c.pick(std::vector<double>{1, 0.5, 1.25}); ref::RefLayer l; l.type = 7; for (int i = 0; i < dim; ++i) { mean.push_back(Value(&g, 1)); var.push_back(fabs(Value(&g, 1)) + 0.01); var.back() = strtod(Num(var.back()).c_str(), nullptr); double sc = rms / sqrt(var[i] + eps); l.scale.push_back(static_cast<float>(sc)); l.offset.push_back(static_cast<float>(-mean[i] * sc)); } net.push_back(l);
      comps += "<ComponentName> " + r + " <BatchNormComponent> <Dim> " + std::to_string(dim) + " <BlockDim> " + std::to_string(dim) + " <Epsilon> " + Num(eps) + " <TargetRms> " + Num(rms) + " <TestMode> F <Count> 1000 <StatsMean> " + vec(mean) + "<StatsVar> " + vec(var) + "</BatchNormComponent> ";
    }
  }
  int pdfs = g.range(1, 8); node("output.affine", prev); affine("output.affine", dim, pdfs); node("output.log-softmax", prev); comps += "<ComponentName> output.log-softmax <LogSoftmaxComponent> <Dim> " + std::to_string(pdfs) + " </LogSoftmaxComponent> "; net.push_back(ref::Simple(8)); nodes += "output-node name=output input=output.log-softmax objective=linear\n";
  std::vector<double> prior; for (int i = 0; i < pdfs; ++i) prior.push_back(strtod(Num(0.01 + g.unit()).c_str(), nullptr));
  // The components need not be in the order of the nodes
  if (c.chance(1, 5)) { static const std::string mark = "<ComponentName> "; std::vector<std::string> part; for (size_t p = 0; p < comps.size();) { size_t q = comps.find(mark, p + 1); if (q == std::string::npos) q = comps.size(); part.push_back(comps.substr(p, q - p)); p = q; } comps.clear(); for (size_t i = part.size(); i > 0; --i) { std::swap(part[i - 1], part[g.upto(i - 1)]); comps += part[i - 1]; } c.label("components in another order"); }
  std::string text = "<TransitionModel> </TransitionModel>\n<Nnet3> \n" + nodes + "\n<NumComponents> " + std::to_string(nc) + " \n" + comps + "</Nnet3> <LeftContext> " + std::to_string(left) + " <RightContext> " + std::to_string(right) + " <Priors> " + vec(prior); std::string d = c.dir(); gen::WriteFile(d + "/am.txt", text);
  Run(c, "convert_am.py", {d + "/am.txt", d + "/am"}); c.note(ref::Describe(net)); c.nontrivial(); if (k) c.label("context");
  Vector<float> pv; Load(d + "/am.prior", &pv); REQUIRE(pv.Dim() == pdfs, "%d priors, expected %d", pv.Dim(), pdfs); for (int i = 0; i < pdfs; ++i) REQUIRE(Near(pv(i), prior[i]), "prior %d is %g, expected %g", i, pv(i), prior[i]);
  std::string bin = gen::ReadAll(d + "/am.nnet"); int32_t ctx[2] = {-1, -1}; if (bin.size() >= 12) memcpy(ctx, &bin[4], 8); REQUIRE(ctx[0] == left && ctx[1] == right, "the file says context %d and %d, expected %d and %d", ctx[0], ctx[1], left, right);
  Nnet nn; Load(d + "/am.nnet", &nn); int rows = left + right + c.range(1, 5); ref::EMat x(rows, in); Matrix<float> mx(rows, in), out; for (int i = 0; i < rows; ++i) for (int j = 0; j < in; ++j) { float v = static_cast<float>(g.gauss()); mx(i, j) = v; x.v[x.ix(i, j)] = v; }
  nn.Propagate(mx, &out); ref::EMat o; for (auto &l : net) if (l.type == 0 || l.type == 7) for (auto &b : l.type == 0 ? l.b : l.offset) (void)b; ref::StableLimit() = 1; try { o = ref::Run(net, x); } catch (ref::Unstable &) { throw pbt::Discard(); }
  REQUIRE(out.NumRows() == o.r && out.NumCols() == o.c, "output of %d x %d, expected %d x %d", out.NumRows(), out.NumCols(), o.r, o.c);
  for (int i = 0; i < o.r; ++i) for (int j = 0; j < o.c; ++j) { double tol = 1e-4 * (1 + fabs(o.v[o.ix(i, j)])) + 40 * o.e[o.ix(i, j)]; REQUIRE(fabs(out(i, j) - o.v[o.ix(i, j)]) <= tol, "output (%d, %d) is %.7g, expected %.7g (%s)", i, j, out(i, j), o.v[o.ix(i, j)], ref::Describe(net).c_str()); }
}

// A word without white space
static std::string Word(pbt::Rng *g, int max) {
  static const char *parts[] = {"a", "Z", "7", "'", "-", "\xc3\xa9", "\xc3\x9f", "\xe4\xb8\xad", "\xe6\x96\x87", "\xf0\x9f\x98\x80", "\xd0\x96", "#", "\"", "\\", "$", "%", "&", "=", "/"};
  std::string w; int n = g->range(1, max); for (int i = 0; i < n; ++i) w += parts[g->upto(g->upto(2) ? 4 : 18)]; return w;
}

PROPERTY("C08", word_table, 160, 3000) {
  int n = c.range(1, 40); bool large = c.chance(1, 10); if (large) n = c.range(1000, 9000); int gap = c.pick(std::vector<int>{0, 0, 3}); bool crlf = c.chance(1, 6); pbt::Rng g(c.seed()); std::vector<std::pair<int, std::string>> e; int id = g.upto(3) ? 0 : g.range(1, 5);
  for (int i = 0; i < n; ++i) { e.push_back({id, Word(&g, g.upto(40) ? 6 : 300)}); id += 1 + (gap ? g.range(0, gap) : 0); } int max = e.back().first; std::vector<std::string> want(max + 1, "<empty>"); for (auto &x : e) want[x.first] = x.second; if (c.flip()) for (size_t i = e.size(); i > 1; --i) std::swap(e[i - 1], e[g.upto(i - 1)]);
  std::string t, seps[] = {" ", "\t", "  "}; for (size_t i = 0; i < e.size(); ++i) { t += e[i].second + seps[g.upto(5) ? 0 : g.range(0, 2)] + std::to_string(e[i].first); if (i + 1 < e.size() || c.flip()) t += crlf ? "\r\n" : "\n"; }
  std::string d = c.dir(); gen::WriteFile(d + "/words.txt", t); Run(c, "convert_words.py", {d + "/words.txt", d + "/words.bin"}); std::string b = gen::ReadAll(d + "/words.bin"); c.note(pbt::strf("%d words, largest id %d", n, max)); c.label(gap ? "with gaps" : "dense"); if (large) c.label("large"); if (n > 1) c.nontrivial();
  REQUIRE(b.size() >= 16 && b.compare(0, 4, "SYM0") == 0, "the table does not start with its signature"); int32_t h[3]; memcpy(h, &b[4], 12); int64_t body = b.size() - 8;
  REQUIRE(h[0] == body, "the section says %d bytes, %lld follow", h[0], static_cast<long long>(body)); REQUIRE(h[1] == max + 1, "%d entries, expected %d", h[1], max + 1); REQUIRE(h[2] == body - 8 - 4 * static_cast<int64_t>(max + 1), "%d bytes of words, %lld follow", h[2], static_cast<long long>(body - 8 - 4 * static_cast<int64_t>(max + 1)));
  const char *words = &b[16 + 4 * static_cast<size_t>(max + 1)]; for (int i = 0; i <= max; ++i) { int32_t o; memcpy(&o, &b[16 + 4 * static_cast<size_t>(i)], 4); REQUIRE(o >= 0 && o < h[2], "the offset of word %d is %d, outside of the %d bytes of words", i, o, h[2]); size_t len = strnlen(words + o, h[2] - o); REQUIRE(static_cast<int>(len) < h[2] - o, "word %d is not terminated", i); REQUIRE(std::string(words + o, len) == want[i], "word %d is '%s', expected '%s'", i, gen::Esc(words + o).c_str(), gen::Esc(want[i]).c_str()); }
}

PROPERTY("C08", character_transcripts, 160, 3000) {
  int lines = c.range(1, 12); if (c.chance(1, 12)) lines = c.range(200, 1500); pbt::Rng g(c.seed()); std::string in, want; int kept = 0, split = 0; bool last = c.flip();
  for (int i = 0; i < lines; ++i) {
    std::string name = "utt" + std::to_string(i) + (g.upto(3) ? "" : "\xe4\xb8\xad" "-x"); in += name; want += name; int toks = g.upto(6) ? g.range(0, 12) : 0;
    for (int k = 0; k < toks; ++k) {
      std::string w; bool whole = true; switch (g.upto(7)) { case 0: w = "[" + Word(&g, 3) + "]"; break; case 1: w = "<" + Word(&g, 3) + ">"; break; case 2: w = g.upto(1) ? g.upto(2) ? "!SIL" : Word(&g, 2) + "!SIL" + (g.upto(1) ? "" : Word(&g, 2)) : "[]"; break; case 3: w = Word(&g, 2) + (g.upto(1) ? "<unk>" : "[n]") + Word(&g, 2); break; case 4: { static const char *o[] = {"[a", "b]", "<x", "y>", "!SI", "]a[", ">a<", "sil", "0", "00"}; w = o[g.range(0, 9)]; whole = false; break; } default: w = Word(&g, g.upto(30) ? 6 : 200); whole = false; }
      in += std::string(1 + (g.upto(9) == 0), g.upto(9) ? ' ' : '\t') + w; if (whole) { want += " " + w; ++kept; } else { ++split; for (size_t q = 0; q < w.size(); ++q) { if ((w[q] & 0xc0) != 0x80) want += ' '; want += w[q]; } }
    }
    if (g.upto(12) == 0) in += ' '; if (i + 1 < lines || last) in += "\n"; want += "\n";
  }
  std::string d = c.dir(), err = d + "/stderr"; gen::WriteFile(d + "/in.txt", in); gen::Ran r = gen::RunProgram({"bash", Tool("conv_chartok.sh"), d + "/in.txt", d + "/out.txt"}, "", d + "/stdout", err); REQUIRE(r.exited && r.code == 0, "conv_chartok.sh failed with status %d: %s", r.code, gen::Esc(gen::ReadAll(err)).c_str()); std::string out = gen::ReadAll(d + "/out.txt"); c.note(pbt::strf("%d lines, %d tokens kept, %d split", lines, kept, split)); if (kept && split) c.nontrivial();
  if (out != want) { size_t p = 0; while (p < out.size() && p < want.size() && out[p] == want[p]) ++p; size_t s = p > 30 ? p - 30 : 0; FAIL("output differs at byte %zu: '%s', expected '%s'", p, gen::Esc(out.substr(s, 80)).c_str(), gen::Esc(want.substr(s, 80)).c_str()); }
}
