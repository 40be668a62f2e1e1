// C26 vector/matrix containers, C18 matrix products and quantization, C19 vector/matrix/network files
#include <float.h>
#include <limits.h>
#include <algorithm>
#include <map>
#include <memory>
#include "gen.h"
#include "matrix.h"
#include "nnet.h"
#include "vector.h"

using namespace pocketkaldi;
using gen::Mat;
using pbt::Case;

namespace {
template <typename T> T Val(Case &c);
template <> float Val<float>(Case &c) { return static_cast<int>(c.upto(4000)) / 8.0f - 250.0f; }
template <> double Val<double>(Case &c) { return static_cast<int>(c.upto(4000)) / 8.0 - 250.0; }
template <> int32_t Val<int32_t>(Case &c) { return static_cast<int32_t>(c.upto(100000)) - 50000; }
template <> uint8_t Val<uint8_t>(Case &c) { return static_cast<uint8_t>(c.upto(255)); }

template <typename T> bool Near(T a, double b, double rel = 1e-5) {
  if (std::isnan(static_cast<double>(a)) || std::isnan(b)) return std::isnan(static_cast<double>(a)) && std::isnan(b);
  if (std::isinf(static_cast<double>(a)) || std::isinf(b)) return static_cast<double>(a) == b;
  return fabs(static_cast<double>(a) - b) <= rel * std::max(1.0, fabs(b));
}

// A set of vectors with their std::vector models
template <typename T> void VectorModel(Case &c) {
  const int K = 3;
  std::vector<std::unique_ptr<Vector<T>>> v; std::vector<std::vector<T>> m(K);
  for (int i = 0; i < K; ++i) v.emplace_back(new Vector<T>());
  int ops = c.range(1, 40); bool moved = false, grown = false; std::string trace;
  for (int i = 0; i < ops; ++i) {
    int a = c.upto(K - 1), b = c.upto(K - 1); int k = c.weighted({5, 4, 3, 3, 3, 3, 3, 3, 3, 3});
    switch (k) {
      case 0: case 1: {
        int n = c.chance(1, 8) ? c.range(100, c.chance(1, 20) ? 9000 : 700) : c.range(0, 20);
        int type = k == 1 ? Vector<T>::kCopyData : (c.flip() ? Vector<T>::kSetZero : Vector<T>::kUndefined);
        trace += pbt::strf("resize %d to %d type %d, ", a, n, type);
        size_t old = m[a].size();
        v[a]->Resize(n, type);
        if (type == Vector<T>::kCopyData) { m[a].resize(n, T(0)); if (old && static_cast<size_t>(n) > old) grown = true; }
        else if (type == Vector<T>::kSetZero) m[a].assign(n, T(0));
        else { m[a].assign(n, T(0)); REQUIRE(v[a]->Dim() == n, "Dim() is %d after Resize(%d)", v[a]->Dim(), n); for (int q = 0; q < n; ++q) { T x = T(q % 100); (*v[a])(q) = x; m[a][q] = x; } }
        break;
      }
      case 2: { T x = Val<T>(c); v[a]->Set(x); std::fill(m[a].begin(), m[a].end(), x); trace += pbt::strf("set %d, ", a); break; }
      case 3: if (!m[a].empty()) { int p = c.upto(m[a].size() - 1); T x = Val<T>(c); (*v[a])(p) = x; m[a][p] = x; } break;
      case 4: { v[a]->Swap(v[b].get()); if (a != b) m[a].swap(m[b]); trace += pbt::strf("swap %d %d, ", a, b); break; }
      case 5: {   // move construction: the source is empty afterwards
        std::unique_ptr<Vector<T>> n(new Vector<T>(std::move(*v[a])));
        REQUIRE(v[a]->Dim() == 0, "moved-from vector has Dim() %d", v[a]->Dim());
        if (c.flip()) v[a].swap(n); else { v[a]->Resize(3); v[a].swap(n); }
        moved = true; trace += pbt::strf("move-construct %d, ", a); break;
      }
      case 6: if (a != b) { *v[a] = std::move(*v[b]); m[a] = m[b]; m[b].clear(); moved = true; trace += pbt::strf("move-assign %d <- %d, ", a, b); } break;
      case 7: if (!m[a].empty()) {   // a view writes through
        int o = c.upto(m[a].size() - 1), l = c.range(0, m[a].size() - o); SubVector<T> s = v[a]->Range(o, l);
        REQUIRE(s.Dim() == l, "Range(%d, %d).Dim() = %d", o, l, s.Dim());
        for (int q = 0; q < l; ++q) REQUIRE(s(q) == m[a][o + q], "Range(%d, %d)(%d) differs", o, l, q);
        if (l) { T x = Val<T>(c); s.Set(x); for (int q = 0; q < l; ++q) m[a][o + q] = x; }
        trace += pbt::strf("range %d [%d,+%d), ", a, o, l);
        break;
      }
      case 8: if (m[a].size() == m[b].size() && !m[a].empty()) { v[a]->CopyFromVec(*v[b]); m[a] = m[b]; trace += pbt::strf("copy %d <- %d, ", a, b); }
              else if (!m[b].empty()) { v[a]->Resize(m[b].size()); m[a].assign(m[b].size(), T(0)); if (a != b) { v[a]->CopyFromVec(*v[b]); m[a] = m[b]; } else { v[a]->SetZero(); } }
              break;
      default: v[a]->SetZero(); std::fill(m[a].begin(), m[a].end(), T(0)); break;
    }
    for (int q = 0; q < K; ++q) {
      REQUIRE(v[q]->Dim() == static_cast<int>(m[q].size()), "vector %d has Dim() %d, expected %zu; ops: %s", q, v[q]->Dim(), m[q].size(), trace.c_str());
      const Vector<T> &cv = *v[q];
      for (size_t e = 0; e < m[q].size(); ++e) REQUIRE(cv(e) == m[q][e], "vector %d element %zu is wrong; ops: %s", q, e, trace.c_str());
    }
  }
  c.note(trace);
  if (moved) c.label("moved"); if (grown) c.label("grown-with-copy");
  if (ops >= 5) c.nontrivial();
}

// A view made from the address of its first element
template <typename T> SubMatrix<T> Part(Matrix<T> *m, int ro, int r, int co, int c) { return SubMatrix<T>(m->Data() + ro * m->Stride() + co, r, c, m->Stride()); }
template <> SubMatrix<uint8_t> Part(Matrix<uint8_t> *m, int ro, int r, int co, int c) { return SubMatrix<uint8_t>(*m, ro, r, co, c); }
template <typename T> void MatrixModel(Case &c) {
  typedef std::vector<std::vector<T>> MM;
  const int K = 2; std::vector<std::unique_ptr<Matrix<T>>> v; std::vector<MM> m(K);
  for (int i = 0; i < K; ++i) v.emplace_back(new Matrix<T>());
  auto cols = [&](const MM &x) { return x.empty() ? 0 : static_cast<int>(x[0].size()); };
  auto zero = [&](int r, int cc) { return MM(r, std::vector<T>(cc, T(0))); };
  auto fill = [&](int a) { for (size_t i = 0; i < m[a].size(); ++i) for (size_t j = 0; j < m[a][i].size(); ++j) { T x = T((i * 7 + j * 3 + a) % 101); (*v[a])(i, j) = x; m[a][i][j] = x; } };
  int ops = c.range(1, 25); std::string trace; bool strided = false, copy = false;
  for (int i = 0; i < ops; ++i) {
    int a = c.upto(K - 1), b = 1 - a; int k = c.weighted({4, 4, 2, 2, 3, 3, 2, 2, 2, 2, 1, 2, 1});
    int R = m[a].size(), C = cols(m[a]);
    switch (k) {
      case 0: case 1: {
        bool wide = c.chance(1, 30); int big = c.chance(1, 3) ? 300 : 60; int r = c.range(0, wide ? big : 9), cc = r == 0 ? 0 : c.range(1, wide ? (r > 60 ? 40 : 300) : 19); if (r == 0) cc = 0;
        int type = k == 1 ? Matrix<T>::kCopyData : (c.flip() ? Matrix<T>::kSetZero : Matrix<T>::kUndefined);
        int st = c.flip() ? Matrix<T>::kDefaultStride : Matrix<T>::kStrideEqualNumCols;
        trace += pbt::strf("resize %d to %dx%d type %d stride %d, ", a, r, cc, type, st);
        v[a]->Resize(r, cc, type, st);
        REQUIRE(v[a]->NumRows() == r && v[a]->NumCols() == cc, "%dx%d after Resize(%d, %d)", v[a]->NumRows(), v[a]->NumCols(), r, cc);
        if (v[a]->Stride() != cc) strided = true;
        MM n = zero(r, cc);
        if (type == Matrix<T>::kCopyData) { for (int x = 0; x < std::min(r, R); ++x) for (int y = 0; y < std::min(cc, C); ++y) n[x][y] = m[a][x][y]; if (R && r) copy = true; m[a] = n; }
        else { m[a] = n; if (type == Matrix<T>::kUndefined) fill(a); }
        break;
      }
      case 2: fill(a); break;
      case 3: if (R) { int x = c.upto(R - 1), y = c.upto(C - 1); T t = Val<T>(c); (*v[a])(x, y) = t; m[a][x][y] = t; } break;
      case 4: if (R) { int x = c.upto(R - 1); SubVector<T> row = v[a]->Row(x); REQUIRE(row.Dim() == C, "Row().Dim() = %d", row.Dim()); T t = Val<T>(c); row.Set(t); std::fill(m[a][x].begin(), m[a][x].end(), t); trace += pbt::strf("row %d of %d, ", x, a); } break;
      case 5: if (R) {
        int ro = c.upto(R - 1), r = c.range(1, R - ro), co = c.upto(C - 1), cc = c.range(1, C - co);
        SubMatrix<T> s = c.flip() ? Part(v[a].get(), ro, r, co, cc) : SubMatrix<T>(*v[a], ro, r, co, cc);
        { const SubMatrix<T> &cs = s; const SubVector<T> row = cs.Row(r - 1); REQUIRE(row.Dim() == cc, "Row().Dim() = %d", row.Dim()); for (int y = 0; y < cc; ++y) REQUIRE(row(y) == m[a][ro + r - 1][co + y], "last row of range(%d,%d,%d,%d), element %d", ro, r, co, cc, y); }
        if (c.chance(1, 3)) { T f = T(c.range(0, 3)); s.Scale(f); for (int x = 0; x < r; ++x) for (int y = 0; y < cc; ++y) m[a][ro + x][co + y] = T(m[a][ro + x][co + y] * f); trace += pbt::strf("scale range %d,%d,%d,%d of %d, ", ro, r, co, cc, a); }
        REQUIRE(s.NumRows() == r && s.NumCols() == cc, "Range() is %dx%d", s.NumRows(), s.NumCols());
        for (int x = 0; x < r; ++x) for (int y = 0; y < cc; ++y) REQUIRE(s(x, y) == m[a][ro + x][co + y], "Range(%d,%d,%d,%d)(%d,%d) differs", ro, r, co, cc, x, y);
        if (c.flip()) { s.SetZero(); for (int x = 0; x < r; ++x) for (int y = 0; y < cc; ++y) m[a][ro + x][co + y] = T(0); trace += pbt::strf("zero range %d,%d,%d,%d of %d, ", ro, r, co, cc, a); }
        break;
      }
      case 6: v[a]->Swap(v[b].get()); m[a].swap(m[b]); trace += "swap, "; break;
      case 7: if (R) { v[b]->Resize(R, C, c.flip() ? Matrix<T>::kUndefined : Matrix<T>::kSetZero, c.flip() ? Matrix<T>::kDefaultStride : Matrix<T>::kStrideEqualNumCols); v[b]->CopyFromMat(*v[a]); m[b] = m[a]; trace += "copy, "; } break;
      case 8: if (R) { v[b]->Resize(C, R, Matrix<T>::kUndefined, c.flip() ? Matrix<T>::kDefaultStride : Matrix<T>::kStrideEqualNumCols); v[b]->CopyFromMat(*v[a], MatrixBase<T>::kTrans); m[b] = zero(C, R); for (int x = 0; x < R; ++x) for (int y = 0; y < C; ++y) m[b][y][x] = m[a][x][y]; trace += "copy-transposed, "; } break;
      case 9: if (R && R == C) { v[a]->Transpose(); MM n = m[a]; for (int x = 0; x < R; ++x) for (int y = 0; y < C; ++y) n[y][x] = m[a][x][y]; m[a] = n; trace += "transpose, "; }
              else if (R) { int d = std::min(R, C); v[a]->Resize(d, d, Matrix<T>::kCopyData); MM n = zero(d, d); for (int x = 0; x < d; ++x) for (int y = 0; y < d; ++y) n[x][y] = m[a][x][y]; m[a] = n; }
              break;
      case 11: { T f = T(c.range(0, 3)); v[a]->Scale(f); for (auto &row : m[a]) for (auto &x : row) x = T(x * f); trace += pbt::strf("scale %d, ", a); break; }
      case 12: { v[a]->SetRand(); bool same = true; for (int x = 0; x < R; ++x) for (int y = 0; y < C; ++y) { T t = (*v[a])(x, y); REQUIRE(t >= T(0) && t <= T(1), "SetRand() stored %g", static_cast<double>(t)); if (t != (*v[a])(0, 0)) same = false; m[a][x][y] = t; } REQUIRE(!same || R * C < 8 || sizeof(T) == 1, "SetRand() made %d equal elements", R * C); break; }
      default: v[a]->SetZero(); m[a] = zero(R, C); break;
    }
    for (int q = 0; q < K; ++q) {
      REQUIRE(v[q]->NumRows() == static_cast<int>(m[q].size()) && v[q]->NumCols() == cols(m[q]), "matrix %d is %dx%d, expected %zux%d; ops: %s", q, v[q]->NumRows(), v[q]->NumCols(), m[q].size(), cols(m[q]), trace.c_str());
      const Matrix<T> &cm = *v[q];
      for (size_t x = 0; x < m[q].size(); ++x) for (size_t y = 0; y < m[q][x].size(); ++y) REQUIRE(cm(x, y) == m[q][x][y], "matrix %d element (%zu,%zu) is wrong; ops: %s", q, x, y, trace.c_str());
    }
  }
  c.note(trace); if (strided) c.label("padded-stride"); if (copy) c.label("resize-copy");
  if (ops >= 4) c.nontrivial();
}
}  // namespace

PROPERTY("C26", vector_histories, 12000, 300000) {
  switch (c.upto(3)) { case 0: VectorModel<float>(c); break; case 1: VectorModel<double>(c); break; case 2: VectorModel<int32_t>(c); break; default: VectorModel<uint8_t>(c); }
}
PROPERTY("C26", matrix_histories, 12000, 300000) {
  switch (c.upto(2)) { case 0: MatrixModel<float>(c); break; case 1: MatrixModel<double>(c); break; default: MatrixModel<uint8_t>(c); }
}

// Element-wise operations against double arithmetic
PROPERTY("C26", vector_arithmetic, 20000, 400000) {
  int n = c.chance(1, 6) ? c.range(30, c.chance(1, 10) ? 5000 : 500) : c.range(1, 20); pbt::Rng r(c.seed());
  int base = c.range(0, 3);     // start of the view, so that unaligned data is covered
  Vector<float> hold(n + base), wh(n + base); SubVector<float> v = hold.Range(base, n), w = wh.Range(base, n);
  std::vector<double> a(n), b(n); double mag = c.pick(std::vector<double>{1, 100, 1e-3});
  for (int i = 0; i < n; ++i) { v(i) = r.gauss() * mag; w(i) = r.gauss() * mag; if (c.chance(1, 12)) v(i) = 0; if (c.chance(1, 12)) w(i) = v(i); a[i] = v(i); b[i] = w(i); }
  float guard = base ? (hold(0) = 77.5f) : 0; (void)guard;
  double rel = 1e-6; int op = c.upto(9); c.note(pbt::strf("op %d on %d elements, magnitude %g", op, n, mag)); c.label(pbt::strf("op%d", op));
  if (n > 1) c.nontrivial();
  std::vector<double> e(n); double tol = 0;
  switch (op) {
    case 0: { double s = 0, abs = 0; for (int i = 0; i < n; ++i) { s += a[i] * b[i]; abs += fabs(a[i] * b[i]); } float g = v.VecVec(w); REQUIRE(fabs(g - s) <= n * 2.4e-7 * abs + 1e-30, "VecVec = %g, expected %g", g, s); e = a; break; }
    case 1: { float al = c.pick(std::vector<float>{1.0f, -1.0f, 0.0f, 0.5f, 3.25f}); v.AddVec(al, w); for (int i = 0; i < n; ++i) { e[i] = a[i] + al * b[i]; } tol = 4e-7 * mag * 20; break; }
    case 2: { float al = Val<float>(c); v.Scale(al); for (int i = 0; i < n; ++i) e[i] = a[i] * al; break; }
    case 3: { float al = Val<float>(c); v.Add(al); for (int i = 0; i < n; ++i) e[i] = a[i] + al; tol = 1e-4; break; }
    case 4: { v.MulElements(w); for (int i = 0; i < n; ++i) e[i] = a[i] * b[i]; break; }
    case 5: { float fl = c.flip() ? v(c.upto(n - 1)) : static_cast<float>(r.gauss() * mag); int cnt = 0; for (int i = 0; i < n; ++i) { e[i] = a[i]; if (a[i] < fl) { e[i] = fl; ++cnt; } } int g = v.ApplyFloor(fl); REQUIRE(g == cnt, "ApplyFloor() floored %d, expected %d", g, cnt); break; }
    case 6: { for (int i = 0; i < n; ++i) { v(i) = fabs(v(i)) + FLT_MIN; e[i] = log(static_cast<double>(v(i))); } v.ApplyLog(); rel = 2e-6; break; }
    case 7: { for (int i = 0; i < n; ++i) { v(i) = fabs(v(i)); } float p = c.pick(std::vector<float>{2.0f, 0.5f, 1.0f, 3.0f}); for (int i = 0; i < n; ++i) e[i] = pow(static_cast<double>(v(i)), p); v.ApplyPow(p); rel = 2e-6; break; }
    case 8: { Vector<double> d(n); d.CopyFromVec(v); d.AddVec(2.0, w); for (int i = 0; i < n; ++i) REQUIRE(fabs(d(i) - (a[i] + 2 * b[i])) <= 1e-12 * std::max(1.0, fabs(d(i))), "double AddVec element %d", i); v.CopyFromVec(d); for (int i = 0; i < n; ++i) e[i] = a[i] + 2 * b[i]; break; }
    default: {
      v.CopyFromVec(w); for (int i = 0; i < n; ++i) e[i] = b[i]; break;
    }
  }
  for (int i = 0; i < n; ++i) REQUIRE(fabs(v(i) - e[i]) <= rel * std::max(fabs(e[i]), 1e-6) + tol, "op %d element %d is %.9g, expected %.9g", op, i, v(i), e[i]);
  if (base) REQUIRE(hold(0) == 77.5f, "op %d wrote before the view", op);
}

// ---------------------------------------------------------------- C18

namespace {
// A matrix that lives inside a larger one (stride > columns) or alone
struct Box {
  Matrix<float> big; int ro, co, r, c;
  Box(Case &k, pbt::Rng *g, int rows, int cols, bool sub, double scale): ro(0), co(0), r(rows), c(cols) {
    if (sub) { ro = k.range(0, 2); co = k.range(0, 3); }
    int R = rows + (sub ? ro + k.range(0, 2) : 0), C = cols + (sub ? co + k.range(0, 3) : 0);
    big.Resize(R, C, Matrix<float>::kUndefined, k.flip() ? Matrix<float>::kDefaultStride : Matrix<float>::kStrideEqualNumCols);
    for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) big(i, j) = static_cast<float>(g->gauss() * scale);
  }
  SubMatrix<float> view() { return SubMatrix<float>(big, ro, r, co, c); }
};
int GemmDim(Case &c) { switch (c.weighted({6, 3, 1})) { case 0: return c.range(1, 20); case 1: return c.range(16, 70); default: return c.chance(1, 5) ? c.range(200, 1500) : c.range(70, 200); } }
}

PROPERTY("C18", matmat_float, 40000, 600000) {
  int m = GemmDim(c), k = GemmDim(c), n = GemmDim(c); if (static_cast<long>(m) * k * n > 1500000) throw pbt::Discard();
  pbt::Rng g(c.seed()); double sc = c.pick(std::vector<double>{1, 1e3, 1e-3});
  Box A(c, &g, m, k, c.flip(), sc), B(c, &g, k, n, c.flip(), 1.0), C(c, &g, m, n, c.flip(), 1.0);
  Matrix<float> before(C.big.NumRows(), C.big.NumCols()); before.CopyFromMat(C.big);
  SubMatrix<float> a = A.view(), b = B.view(), cc = C.view();
  bool simple = c.chance(1, 4);
  c.note(pbt::strf("%dx%d * %dx%d, strides %d %d %d%s", m, k, k, n, a.Stride(), b.Stride(), cc.Stride(), simple ? ", simple" : ""));
  if (a.Stride() != k || b.Stride() != n || cc.Stride() != n) c.label("strided"); if (m * n * k > 1) c.nontrivial();
  if (simple) SimpleMatMat<float>(a, b, &cc); else MatMat(a, b, &cc);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
    double s = 0, abs = 0; for (int q = 0; q < k; ++q) { double t = static_cast<double>(a(i, q)) * b(q, j); s += t; abs += fabs(t); }
    REQUIRE(fabs(cc(i, j) - s) <= 1.5e-7 * (k + 4) * abs + 1e-30, "product (%d,%d) = %g, expected %g (%dx%dx%d)", i, j, cc(i, j), s, m, k, n);
  }
  for (int i = 0; i < C.big.NumRows(); ++i) for (int j = 0; j < C.big.NumCols(); ++j)
    if (i < C.ro || i >= C.ro + m || j < C.co || j >= C.co + n) REQUIRE(C.big(i, j) == before(i, j), "element (%d,%d) outside of the result was written", i, j);
}

namespace {
// Random values for the quantizer: mixed, positive only, negative only, with zeros, constant
Mat QuantInput(Case &c, int r, int cc, std::string *kind) {
  pbt::Rng g(c.seed()); Mat m(r, cc); double sc = c.pick(std::vector<double>{1, 50, 1e-2, 2000});
  int k = c.weighted({6, 2, 2, 1, 1});
  const char *names[] = {"mixed", "positive", "negative", "constant", "two-valued"}; *kind = names[k];
  double off = g.unit();
  for (auto &x : m.d) {
    switch (k) {
      case 0: x = g.gauss() * sc; break;
      case 1: x = (off * 2 + g.unit()) * sc; break;
      case 2: x = -(off * 2 + g.unit()) * sc; break;
      case 3: x = sc * (off < 0.4 ? 1 : -1); break;
      default: x = (g.next() & 1) ? sc : -sc * off; break;
    }
  }
  return m;
}
void MinMax(const Mat &m, double *lo, double *hi) { *lo = *hi = m.d[0]; for (float x : m.d) { *lo = std::min<double>(*lo, x); *hi = std::max<double>(*hi, x); } }
void ToMatrix(const Mat &m, Matrix<float> *o) { o->Resize(m.r, m.c); for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) (*o)(i, j) = m.at(i, j); }
}

PROPERTY("C18", quantize_error_bound, 60000, 1000000) {
  bool wide = c.chance(1, 60), vast = c.chance(1, 500); int r = c.range(1, wide ? 100 : 12), cc = c.range(1, wide ? 300 : 20); if (vast) { r = c.range(60000, 140000); cc = c.flip() ? 1 : c.range(1, 3); if (c.flip()) std::swap(r, cc); c.label("more than 60000 elements"); } std::string kind; Mat m = QuantInput(c, r, cc, &kind);
  double lo, hi; MinMax(m, &lo, &hi);
  double top = std::max(hi, 0.0), bot = hi > lo ? lo : std::min(lo, 0.0);
  if (hi > lo && top - lo < 1e-3 * std::max(fabs(lo), fabs(hi))) throw pbt::Discard();   // no room for 8 bits in the float of the zero point
  Matrix<float> src; ToMatrix(m, &src); Matrix<uint8_t> q; QuantizationParams p;
  if (c.flip()) q.Resize(c.range(1, 4), c.range(1, 4));
  c.note(pbt::strf("%dx%d %s in [%g, %g]", r, cc, kind.c_str(), lo, hi)); c.label(kind); if (r * cc > 1) c.nontrivial();
  Quantize(src, &q, &p);
  REQUIRE(q.NumRows() == r && q.NumCols() == cc, "quantized shape %dx%d", q.NumRows(), q.NumCols());
  REQUIRE(std::isfinite(p.scale) && p.scale > 0, "scale = %g", p.scale);
  REQUIRE(p.scale <= (top - bot) / 255 * 1.0001 + 1e-37, "scale %g is coarser than the range [%g, %g] needs", p.scale, bot, top);
  for (int i = 0; i < r; ++i) for (int j = 0; j < cc; ++j) {
    double d = (static_cast<double>(q(i, j)) - p.zero_point) * p.scale, x = m.at(i, j);
    double slack = 0.5 + 3e-7 * (fabs(x) / p.scale + fabs(static_cast<double>(p.zero_point))) + 1e-3;
    REQUIRE(fabs(d - x) <= slack * p.scale, "element (%d,%d) %g is restored as %g, scale %g (more than half a step)", i, j, x, d, p.scale);
  }
}

PROPERTY("C18", matmat_quantized, 20000, 300000) {
  int m = GemmDim(c), k = GemmDim(c), n = GemmDim(c);
  if (static_cast<long>(m) * k * n > 600000 || m * k < 2 || k * n < 2) throw pbt::Discard();
  std::string ka, kb; Mat A = QuantInput(c, m, k, &ka), B = QuantInput(c, k, n, &kb); Matrix<float> a, b; ToMatrix(A, &a); ToMatrix(B, &b);
  Matrix<uint8_t> qa, qb; QuantizationParams pa, pb; Quantize(a, &qa, &pa); Quantize(b, &qb, &pb);
  double da = 255.0 + fabs(static_cast<double>(pa.zero_point)), db = 255.0 + fabs(static_cast<double>(pb.zero_point));
  if (da * db * k > 1e9) throw pbt::Discard();     // 32-bit accumulators
  Matrix<float> C(m, n); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) C(i, j) = NAN;
  c.note(pbt::strf("%dx%d (%s) * %dx%d (%s), zero points %d %d", m, k, ka.c_str(), k, n, kb.c_str(), pa.zero_point, pb.zero_point)); if (k > 1) c.nontrivial();
  MatMat_U8U8F32(qa, pa, qb, pb, &C);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
    long s = 0; double f = 0, bound = 0;
    for (int q = 0; q < k; ++q) {
      s += (static_cast<long>(qa(i, q)) - pa.zero_point) * (static_cast<long>(qb(q, j)) - pb.zero_point);
      f += static_cast<double>(a(i, q)) * b(q, j);
      bound += fabs(a(i, q)) * 0.51 * pb.scale + fabs(b(q, j)) * 0.51 * pa.scale + 0.3 * pa.scale * pb.scale;
    }
    double e = static_cast<double>(s) * pa.scale * pb.scale;
    REQUIRE(fabs(C(i, j) - e) <= 1e-6 * fabs(e) + 1e-6 * pa.scale * pb.scale, "quantized product (%d,%d) = %g, exact %g (%dx%dx%d)", i, j, C(i, j), e, m, k, n);
    REQUIRE(fabs(C(i, j) - f) <= bound * 1.01 + 1e-5 * fabs(f), "quantized product (%d,%d) = %g, float product %g, bound %g", i, j, C(i, j), f, bound);
  }
}

// ---------------------------------------------------------------- C19

namespace {
template <typename T> std::vector<T> RandVec(Case &c, int n) {
  pbt::Rng g(c.seed()); std::vector<T> v(n);
  for (auto &x : v) { uint64_t b = g.next(); memcpy(&x, &b, sizeof x); }     // every bit pattern
  return v;
}
template <typename T> void CheckVec(const Vector<T> &v, const std::vector<T> &e) {
  REQUIRE(v.Dim() == static_cast<int>(e.size()), "Dim() = %d, file has %zu", v.Dim(), e.size());
  REQUIRE(e.empty() || memcmp(v.Data(), e.data(), e.size() * sizeof(T)) == 0, "elements differ from the file");
}
void Patch32(std::string *s, size_t at, int32_t v) { memcpy(&(*s)[at], &v, 4); }

template <typename T> void VecFile(Case &c) {
  int n = c.chance(1, 8) ? c.range(500, c.chance(1, 20) ? 80000 : 3000) : c.range(1, 30), cnt = c.range(1, 4);
  std::string file; std::vector<std::vector<T>> vs; std::vector<size_t> starts;
  for (int i = 0; i < cnt; ++i) { int d = i ? c.range(1, 20) : n; vs.push_back(RandVec<T>(c, d)); starts.push_back(file.size()); file += gen::VecBytes(vs.back()); }
  int mode = c.weighted({5, 5, 2, 2, 2, 2, 1}); std::string desc; int bad = -1;    // index of the vector that must fail
  if (mode) {
    bad = c.upto(cnt - 1); size_t s = starts[bad]; int32_t d = vs[bad].size();
    switch (mode) {
      case 1: { size_t len = c.upto(12 + d * sizeof(T) - 1); file.resize(s + len); desc = pbt::strf("truncated after %zu bytes", len); break; }
      case 2: file[s + c.upto(3)] ^= 1 << c.upto(7); desc = "bad magic"; break;
      case 3: { int32_t x = static_cast<int32_t>(d * sizeof(T) + 4) + (c.flip() ? 1 : -1) * static_cast<int>(1 + c.upto(64)); Patch32(&file, s + 4, x); desc = "bad section size"; break; }
      case 4: { int32_t x = d + (c.flip() ? 1 : -1) * static_cast<int>(1 + c.upto(40)); Patch32(&file, s + 8, x); desc = "bad dimension"; break; }
      case 5: { int32_t x = -1 - static_cast<int32_t>(c.upto(40)); Patch32(&file, s + 8, x); Patch32(&file, s + 4, static_cast<int32_t>(x * static_cast<int64_t>(sizeof(T)) + 4)); desc = "negative dimension, consistent section size"; break; }
      default: { int32_t x = d + 1 + c.upto(100000); Patch32(&file, s + 8, x); Patch32(&file, s + 4, x * static_cast<int32_t>(sizeof(T)) + 4); file.resize(s + 12 + d * sizeof(T)); desc = "more elements announced than present"; break; }
    }
  }
  std::string path = c.dir() + "/v.bin"; gen::WriteFile(path, file);
  c.note(pbt::strf("%d vectors, first of %d elements of %zu bytes, %s", cnt, n, sizeof(T), bad < 0 ? "intact" : desc.c_str())); c.label(bad < 0 ? "intact" : desc.substr(0, 12));
  c.nontrivial();
  util::ReadableFile fd; REQUIRE(fd.Open(path).ok(), "open");
  Vector<T> v; if (c.flip()) v.Resize(c.range(1, 40));
  for (int i = 0; i < cnt; ++i) {
    Status st = v.Read(&fd);
    if (i == bad) { REQUIRE(!st.ok(), "Read() accepted a %s file", desc.c_str()); return; }
    REQUIRE(st.ok(), "Read() of vector %d of a valid file: %s", i, st.what().c_str());
    CheckVec(v, vs[i]);
  }
}
}  // namespace

PROPERTY("C19", vector_files, 40000, 600000) {
  switch (c.upto(3)) { case 0: VecFile<float>(c); break; case 1: VecFile<double>(c); break; case 2: VecFile<int32_t>(c); break; default: VecFile<uint8_t>(c); }
}

PROPERTY("C19", matrix_files, 40000, 600000) {
  bool wide = c.chance(1, 60); int r = c.range(1, wide ? 120 : 12), k = c.range(1, wide ? 700 : 20); Mat m(r, k); std::vector<float> d = RandVec<float>(c, r * k); m.d = d;
  std::string file = gen::MatBytes(m); size_t rowlen = 12 + 4 * k; std::string desc; int mode = c.weighted({5, 5, 2, 2, 2, 2, 2, 1});
  switch (mode) {
    case 1: { size_t len = c.upto(file.size() - 1); file.resize(len); desc = "truncated"; break; }
    case 2: file[c.upto(3)] ^= 1 << c.upto(7); desc = "bad magic"; break;
    case 3: { int row = c.upto(r - 1); file[16 + row * rowlen + c.upto(3)] ^= 1 << c.upto(7); desc = "bad magic of a row"; break; }
    case 4: { int row = c.upto(r - 1); std::string other = gen::VecBytes(std::vector<float>(k + (k > 1 && c.flip() ? -1 : 1 + static_cast<int>(c.upto(3))), 1.0f)); file = file.substr(0, 16 + row * rowlen) + other + file.substr(16 + (row + 1) * rowlen); desc = "row of another length"; break; }
    case 5: { Patch32(&file, 8, r + 1 + c.upto(50)); desc = "more rows announced"; break; }
    case 6: { int32_t a = c.pick(std::vector<int32_t>{-1, -7, INT_MIN, 0, INT_MAX}), b = c.pick(std::vector<int32_t>{-1, -3, 5, INT_MAX, 1}); Patch32(&file, 8, a); Patch32(&file, 12, b); desc = pbt::strf("impossible shape %dx%d", a, b); break; }
    case 7: { Patch32(&file, 12, k + 1 + c.upto(50)); desc = "other number of columns"; break; }
    default: break;
  }
  std::string tail = gen::VecBytes(std::vector<float>{1.5f, 2.5f}); if (!mode) file += tail;
  std::string path = c.dir() + "/m.bin"; gen::WriteFile(path, file);
  c.note(pbt::strf("%dx%d, %s", r, k, mode ? desc.c_str() : "intact")); c.label(mode ? desc.substr(0, 16) : "intact"); c.nontrivial();
  util::ReadableFile fd; REQUIRE(fd.Open(path).ok(), "open"); Matrix<float> x; if (c.flip()) x.Resize(c.range(1, 5), c.range(1, 5));
  Status st = x.Read(&fd);
  if (mode) { REQUIRE(!st.ok(), "Read() accepted a file: %s", desc.c_str()); return; }
  REQUIRE(st.ok(), "Read() of a valid file: %s", st.what().c_str());
  REQUIRE(x.NumRows() == r && x.NumCols() == k, "%dx%d read, file has %dx%d", x.NumRows(), x.NumCols(), r, k);
  for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) { float a = static_cast<const Matrix<float> &>(x)(i, j); REQUIRE(gen::SameBits(a, m.at(i, j)), "element (%d,%d) differs", i, j); }
  Vector<float> t; REQUIRE(t.Read(&fd).ok() && t.Dim() == 2 && t(0) == 1.5f && t(1) == 2.5f, "the section after the matrix is not read correctly");
}
