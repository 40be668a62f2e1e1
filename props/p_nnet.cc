// C17 network layers and networks, C16 streaming acoustic model, C19 network files
#include <limits.h>
#include <float.h>
#include <memory>
#include "am.h"
#include "configuration.h"
#include "gen.h"
#include "nnet.h"
#include "ref_nnet.h"

using namespace pocketkaldi;
using gen::Mat;
using pbt::Case;
using ref::EMat;
using ref::RefLayer;

namespace {
std::vector<RefLayer> GenNet(Case &c, pbt::Rng *g, int in, int max_layers, bool narrow) {
  std::vector<RefLayer> net; int n = c.range(1, max_layers), dim = in;
  for (int i = 0; i < n; ++i) {
    switch (c.weighted({5, 3, 2, 2, 3, 2, 2, narrow ? 2 : 0})) {
      case 0: { int out = c.range(1, 24); net.push_back(ref::Linear(g, dim, out, c.pick(std::vector<double>{1, 3, 0.3}))); dim = out; break; }
      case 1: net.push_back(ref::Simple(1)); break;
      case 2: net.push_back(ref::Simple(2)); break;
      case 3: net.push_back(ref::Simple(3)); break;
      case 4: if (dim <= 40) { RefLayer l = ref::Simple(6); int k = c.range(1, 4); for (int q = 0; q < k; ++q) l.idx.push_back(c.range(-5, 5)); net.push_back(l); dim *= k; } break;
      case 5: net.push_back(ref::BatchNorm(g, dim)); break;
      case 6: net.push_back(ref::Simple(8)); break;
      default: { RefLayer l = ref::Simple(9); l.nl = c.range(0, 3); l.nr = c.range(0, 3); net.push_back(l); break; }
    }
  }
  if (net.empty()) net.push_back(ref::Simple(1));
  return net;
}

void FillInput(Case &c, pbt::Rng *g, Mat *x, std::string *kind) {
  int k = c.weighted({6, 2, 2, 1, 1}); const char *names[] = {"normal", "large", "sparse", "row of zeros", "tiny"}; *kind = names[k];
  double sc = k == 1 ? c.pick(std::vector<double>{30, 100, 1000, 1e6, 1e10}) : k == 4 ? c.pick(std::vector<double>{1e-2, 1e-4, 1e-6, 1e-8}) : 1;
  for (auto &v : x->d) { v = static_cast<float>(g->gauss() * sc); if (k == 2 && (g->next() & 3)) v = 0; }
  if (k == 3) { int r = c.upto(x->r - 1); for (int j = 0; j < x->c; ++j) x->at(r, j) = 0; }
}
EMat Exact(const Mat &m) { EMat e(m.r, m.c); for (size_t i = 0; i < m.d.size(); ++i) e.v[i] = m.d[i]; return e; }
void ToMatrix(const Mat &m, Matrix<float> *o) { o->Resize(m.r, m.c); for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) (*o)(i, j) = m.at(i, j); }
void Compare(const MatrixBase<float> &got, const EMat &e, const std::string &what) {
  REQUIRE(got.NumRows() == e.r && got.NumCols() == e.c, "%s: %dx%d output, expected %dx%d", what.c_str(), got.NumRows(), got.NumCols(), e.r, e.c);
  for (int i = 0; i < e.r; ++i) for (int j = 0; j < e.c; ++j) { double d = fabs(got(i, j) - e.v[e.ix(i, j)]); REQUIRE(d <= e.e[e.ix(i, j)] * 2 + 1e-30, "%s: output (%d,%d) = %.8g, expected %.8g +- %.2g", what.c_str(), i, j, got(i, j), e.v[e.ix(i, j)], e.e[e.ix(i, j)]); }
}
}  // namespace

PROPERTY("C17", single_layers, 20000, 400000) {
  pbt::Rng g(c.seed()); int rows = c.chance(1, 40) ? c.range(14, 200) : c.range(1, 14), dim = c.chance(1, 8) ? c.range(30, c.chance(1, 8) ? 700 : 120) : c.range(1, 16); Mat x(rows, dim); std::string kind; FillInput(c, &g, &x, &kind);
  static const int types[] = {0, 1, 2, 3, 6, 7, 8, 9}; RefLayer l; l.type = types[c.upto(7)]; std::unique_ptr<Layer> layer; if (c.chance(1, 300)) { rows = c.range(1, 5); dim = c.range(700, l.type == 0 ? 9000 : 3000); x = Mat(rows, dim); FillInput(c, &g, &x, &kind); c.label("wide"); }
  switch (l.type) {
    case 0: { l = ref::Linear(&g, dim, c.chance(1, 20) ? c.range(20, 300) : c.range(1, 20)); Matrix<float> W(l.W.c, l.W.r); for (int i = 0; i < l.W.c; ++i) for (int j = 0; j < l.W.r; ++j) W(i, j) = l.W.at(j, i); Vector<float> b(l.b.size()); for (size_t i = 0; i < l.b.size(); ++i) b(i) = l.b[i]; layer.reset(new LinearLayer(W, b)); break; }
    case 1: layer.reset(new ReLULayer()); break;
    case 2: layer.reset(new NormalizeLayer()); break;
    case 3: layer.reset(new SoftmaxLayer()); break;
    case 6: { int k = c.range(1, 6); for (int i = 0; i < k; ++i) l.idx.push_back(c.range(-20, 20) * (c.flip() ? 1 : 0) + c.range(-2, 2)); layer.reset(new SpliceLayer(l.idx)); break; }
    case 7: { l = ref::BatchNorm(&g, dim); Vector<float> s(dim), o(dim); for (int i = 0; i < dim; ++i) { s(i) = l.scale[i]; o(i) = l.offset[i]; } layer.reset(new BatchNormLayer(s, o)); break; }
    case 8: layer.reset(new LogSoftmaxLayer()); break;
    default: l.nl = c.range(0, 6); l.nr = c.range(0, 6); layer.reset(new NarrowLayer(l.nl, l.nr));
  }
  c.note(ref::Describe({l}) + pbt::strf(" on %dx%d %s input", rows, dim, kind.c_str())); c.label(ref::Name(l.type)); if (rows * dim > 1) c.nontrivial();
  EMat e; try { e = ref::Apply(l, Exact(x)); } catch (ref::Unstable &) { throw pbt::Discard(); }
  Matrix<float> in, out; ToMatrix(x, &in); if (c.flip()) out.Resize(c.range(1, 20), c.range(1, 9));
  layer->Propagate(in, &out);
  Compare(out, e, ref::Describe({l}));
  for (int i = 0; i < rows; ++i) for (int j = 0; j < dim; ++j) REQUIRE(in(i, j) == x.at(i, j), "the input was modified at (%d,%d)", i, j);
  layer->Propagate(in, &out);       // a layer has no memory
  Compare(out, e, ref::Describe({l}) + " (second time)");
}

PROPERTY("C17", networks_from_file, 10000, 200000) {
  pbt::Rng g(c.seed()); int rows = c.range(1, 14), dim = c.range(1, 16); std::vector<RefLayer> net = GenNet(c, &g, dim, 7, true); if (c.chance(1, 80)) { int more = c.range(10, 150), d = dim; for (auto &l : net) d = l.type == 0 ? l.W.c : l.type == 6 ? d * static_cast<int>(l.idx.size()) : d; for (int i = 0; i < more; ++i) switch (g.upto(3)) { case 0: net.push_back(ref::Simple(1)); break; case 1: net.push_back(ref::BatchNorm(&g, d)); break; case 2: net.push_back(ref::Linear(&g, d, d, 1)); break; default: { RefLayer s = ref::Simple(6); s.idx.push_back(g.range(-1, 1)); net.push_back(s); } } c.label("deep"); }
  Mat x(rows, dim); std::string kind; FillInput(c, &g, &x, &kind);
  std::string path = c.dir() + "/n.bin"; int lc = c.range(0, 9), rc = c.range(0, 9); gen::WriteFile(path, ref::NetBytes(net, lc, rc));
  c.note(ref::Describe(net) + pbt::strf(" on %dx%d %s", rows, dim, kind.c_str())); if (net.size() > 1) c.nontrivial(); c.label(pbt::strf("layers:%zu", net.size()));
  EMat e; try { e = ref::Run(net, Exact(x)); } catch (ref::Unstable &) { throw pbt::Discard(); }
  util::ReadableFile fd; REQUIRE(fd.Open(path).ok(), "open"); Nnet n; Status st = n.Read(&fd);
  REQUIRE(st.ok(), "Read() of a valid network: %s", st.what().c_str());
  REQUIRE(n.left_context() == lc && n.right_context() == rc, "context %d,%d read, file has %d,%d", n.left_context(), n.right_context(), lc, rc);
  Matrix<float> in, out; ToMatrix(x, &in); n.Propagate(in, &out); Compare(out, e, ref::Describe(net));
  Matrix<float> out2; n.Propagate(in, &out2); Compare(out2, e, ref::Describe(net) + " (second time)");
}

PROPERTY("C19", network_files, 12000, 200000) {
  pbt::Rng g(c.seed()); int dim = c.range(1, 6); std::vector<RefLayer> net = GenNet(c, &g, dim, 5, true);
  std::string file = ref::NetBytes(net, 1, 1), desc; int mode = c.weighted({3, 6, 2, 2, 2, 2, 1, 2, 2});
  std::vector<size_t> at; { size_t p = 16; for (auto &l : net) { at.push_back(p); p += ref::LayerBytes(l).size(); } }
  int k = c.upto(net.size() - 1);
  switch (mode) {
    case 1: { size_t n = c.upto(file.size() - 1); file.resize(n); desc = pbt::strf("truncated after %zu bytes", n); break; }
    case 2: file[c.upto(3)] ^= 1 << c.upto(7); desc = "bad magic"; break;
    case 3: file[at[k] + c.upto(3)] ^= 1 << c.upto(7); desc = pbt::strf("bad magic of layer %d", k); break;
    case 4: { int32_t t = c.pick(std::vector<int32_t>{4, 5, 10, 11, -1, 255, INT_MAX, INT_MIN}); memcpy(&file[at[k] + 4], &t, 4); desc = pbt::strf("unknown type %d of layer %d", t, k); break; }
    case 5: { int32_t n = net.size() + 1 + c.upto(3); memcpy(&file[12], &n, 4); desc = "more layers announced"; break; }
    case 6: { int32_t n = c.pick(std::vector<int32_t>{-1, INT_MIN, -static_cast<int32_t>(net.size()), -1000}); memcpy(&file[12], &n, 4); desc = "negative number of layers"; break; }
    case 7: case 8: {        // a count of a splice or narrow layer
      int type = mode == 7 ? 6 : 9; std::vector<int> of; for (size_t i = 0; i < net.size(); ++i) if (net[i].type == type) of.push_back(i); if (of.empty()) throw pbt::Discard();
      k = of[c.upto(of.size() - 1)]; int field = mode == 8 ? c.range(0, 1) : 0; int32_t n = mode == 7 ? c.pick(std::vector<int32_t>{0, -1, INT_MIN, INT_MAX, 1 << 20}) : c.pick(std::vector<int32_t>{-1, -2, INT_MIN}); memcpy(&file[at[k] + 8 + 4 * field], &n, 4); desc = pbt::strf("count %d in layer %d", n, k); break; }
  }
  std::string path = c.dir() + "/n.bin"; gen::WriteFile(path, file); c.note(ref::Describe(net) + ", " + (mode ? desc : "intact")); c.label(mode ? desc.substr(0, 12) : "intact"); c.nontrivial();
  util::ReadableFile fd; REQUIRE(fd.Open(path).ok(), "open"); Nnet n; Status st = n.Read(&fd);
  if (mode) REQUIRE(!st.ok(), "Read() accepted a network file: %s (%s)", desc.c_str(), ref::Describe(net).c_str());
  else REQUIRE(st.ok(), "Read() of a valid network: %s", st.what().c_str());
}

// ---------------------------------------------------------------- C16

namespace {
struct Am {
  int l, r, chunk, dim, pdfs; std::vector<RefLayer> net; std::vector<float> prior; std::vector<int32_t> tid2pdf;
  std::string conf;
};
// A network whose output t depends on inputs t-l..t+r and whose input is narrowed by l and r
Am GenAm(Case &c, pbt::Rng *g, bool large = false) {
  Am a; bool wide = c.chance(1, 20); a.l = c.range(0, wide ? 30 : 5); a.r = c.range(0, wide ? 30 : 5); a.chunk = c.chance(1, 8) ? c.range(20, 60) : c.range(1, 12); if (!large && c.chance(1, 60)) { int k = c.upto(2); if (k != 1) a.chunk = c.range(60, 700); if (k != 0) { a.l = c.range(0, 90); a.r = c.range(0, 90); } } a.dim = large ? c.range(10, 48) : c.range(1, 6);
  int dim = a.dim, ls = a.l, rs = a.r, nl = a.l, nr = a.r; int parts = c.range(1, 3);
  for (int i = 0; i < parts; ++i) {
    if (c.flip()) {      // splice within what is left of the context
      RefLayer s = ref::Simple(6); int lo = c.range(0, ls), hi = c.range(0, rs); s.idx.push_back(-lo); if (c.flip()) s.idx.push_back(0); s.idx.push_back(hi); ls -= lo; rs -= hi; a.net.push_back(s); dim *= s.idx.size();
      if (c.chance(1, 3)) { RefLayer w = ref::Simple(9); w.nl = lo; w.nr = hi; nl -= lo; nr -= hi; a.net.push_back(w); }
    }
    int out = !large ? c.range(2, 8) : i + 1 < parts ? c.range(16, 130) : c.range(100, 1500); a.net.push_back(ref::Linear(g, dim, out)); dim = out;
    switch (c.upto(2)) { case 0: a.net.push_back(ref::Simple(1)); break; case 1: a.net.push_back(ref::BatchNorm(g, dim)); break; default: break; }
  }
  if (nl || nr || c.flip()) { RefLayer w = ref::Simple(9); w.nl = nl; w.nr = nr; a.net.push_back(w); }
  a.pdfs = dim; if (c.flip()) a.net.push_back(ref::Simple(8));
  bool rare = c.chance(1, 5); for (int i = 0; i < a.pdfs; ++i) a.prior.push_back(static_cast<float>(rare ? exp(6 - 36 * g->unit()) : 0.01 + g->unit()));
  a.tid2pdf = {0}; int nt = c.range(1, 6); for (int i = 0; i < nt; ++i) a.tid2pdf.push_back(g->range(0, a.pdfs - 1));
  std::string d = c.dir() + "/"; gen::WriteFile(d + "nn", ref::NetBytes(a.net, a.l, a.r)); gen::WriteFile(d + "prior", gen::VecBytes(a.prior)); gen::WriteFile(d + "tid", gen::VecBytes(a.tid2pdf));
  gen::WriteFile(d + "am.conf", pbt::strf("nnet=nn\nprior=prior\nleft_context=%d\nright_context=%d\nchunk_size=%d\nnum_pdfs=%d\ntid2pdf=tid\n", a.l, a.r, a.chunk, a.pdfs));
  a.conf = d + "am.conf"; return a;
}
EMat RefAm(const Am &a, const Mat &x) {
  EMat out(x.r, a.pdfs);
  for (int t = 0; t < x.r; ++t) {
    Mat w(a.l + a.r + 1, a.dim); for (int k = -a.l; k <= a.r; ++k) { int s = std::min(std::max(t + k, 0), x.r - 1); for (int j = 0; j < a.dim; ++j) w.at(k + a.l, j) = x.at(s, j); }
    EMat y = ref::Run(a.net, Exact(w)); if (y.r != 1 || y.c != a.pdfs) abort();
    for (int j = 0; j < a.pdfs; ++j) { double lp = log(static_cast<double>(a.prior[j])); out.v[out.ix(t, j)] = y.v[j] - lp; out.e[out.ix(t, j)] = y.e[j] + 4 * ref::kU * (fabs(y.v[j]) + fabs(lp)); }
  }
  return out;
}
struct Stream {
  Mat x; int pos = 0; std::vector<std::vector<float>> got; bool ended = false; std::unique_ptr<AcousticModel::Instance> inst{new AcousticModel::Instance()};
  void Take(const Matrix<float> &m) { for (int i = 0; i < m.NumRows(); ++i) { std::vector<float> r; for (int j = 0; j < m.NumCols(); ++j) r.push_back(m(i, j)); got.push_back(r); } }
};
}  // namespace

static void AmStreams(Case &c, bool large) {
  pbt::Rng g(c.seed()); Am a = GenAm(c, &g, large);
  Configuration conf; REQUIRE(conf.Read(a.conf).ok(), "configuration"); AcousticModel am; Status st = am.Read(conf); REQUIRE(st.ok(), "AcousticModel::Read: %s", st.what().c_str());
  REQUIRE(am.num_pdfs() == a.pdfs, "num_pdfs() = %d", am.num_pdfs());
  REQUIRE(am.TransitionPdfIdMap().Dim() == static_cast<int>(a.tid2pdf.size()), "transition map has %d entries", am.TransitionPdfIdMap().Dim());
  for (size_t i = 0; i < a.tid2pdf.size(); ++i) REQUIRE(am.TransitionPdfIdMap()(i) == a.tid2pdf[i], "transition %zu maps to %d", i, am.TransitionPdfIdMap()(i));
  int ns = c.range(1, large ? 2 : 3); std::vector<Stream> s(ns); std::string d;
  for (auto &q : s) { int edge = a.chunk + a.l + a.r; int n = c.weighted({3, 2}) && !(large && edge > 30) ? std::max(0, edge * c.range(1, 2) + c.range(-2, 2)) : !large && c.chance(1, 40) ? c.range(40, 500) : c.range(0, 40); q.x = gen::RandMat(&g, n, a.dim); d += std::to_string(n) + " "; if (n > a.chunk) c.label("several-chunks"); if (n <= a.l + a.r) c.label("shorter-than-context"); if (n == 0) c.label("empty-stream"); if (n > 1) c.nontrivial(); }
  c.note(ref::Describe(a.net) + pbt::strf(" l %d r %d chunk %d, streams of %sframes", a.l, a.r, a.chunk, d.c_str())); if (ns > 1) c.label("interleaved");
  Matrix<float> out; int left = ns;
  while (left) {
    Stream &q = s[c.upto(ns - 1)]; if (q.ended) { for (auto &z : s) if (!z.ended) { Stream &w = z; (void)w; } }
    Stream *p = &q; if (p->ended) for (auto &z : s) if (!z.ended) p = &z;
    int n = c.range(1, 9);
    for (int i = 0; i < n && p->pos < p->x.r; ++i) {
      Vector<float> f(a.dim); for (int j = 0; j < a.dim; ++j) f(j) = p->x.at(p->pos, j);
      am.Process(p->inst.get(), f, &out); ++p->pos; p->Take(out);
      REQUIRE(static_cast<int>(p->got.size()) <= p->pos, "%zu rows out after %d frames in", p->got.size(), p->pos);
    }
    if (p->pos == p->x.r) { am.EndOfStream(p->inst.get(), &out); p->Take(out); p->ended = true; --left; }
  }
  for (int k = 0; k < ns; ++k) {
    Stream &q = s[k];
    REQUIRE(static_cast<int>(q.got.size()) == q.x.r, "stream %d: %d frames in, %zu rows of log-likelihood out", k, q.x.r, q.got.size());
    if (!q.x.r) continue;
    EMat e; try { e = RefAm(a, q.x); } catch (ref::Unstable &) { c.label("unstable-reference"); continue; }
    for (int t = 0; t < q.x.r; ++t) for (int j = 0; j < a.pdfs; ++j) {
      REQUIRE(static_cast<int>(q.got[t].size()) == a.pdfs, "row %d has %zu columns", t, q.got[t].size());
      REQUIRE(fabs(q.got[t][j] - e.v[e.ix(t, j)]) <= 2 * e.e[e.ix(t, j)] + 1e-6, "stream %d frame %d pdf %d: %.8g, expected %.8g", k, t, j, q.got[t][j], e.v[e.ix(t, j)]);
    }
  }
}
PROPERTY("C16", am_streaming, 8000, 150000) { AmStreams(c, false); }
PROPERTY("C16", large_models, 160, 2500, 60) { AmStreams(c, true); }
