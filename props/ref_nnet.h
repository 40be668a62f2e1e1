// Reference of the neural network: double arithmetic, and for each value a
// bound of the error single precision arithmetic may make.
#ifndef VERIF_REF_NNET_H_
#define VERIF_REF_NNET_H_
#include <algorithm>
#include <vector>
#include "gen.h"

namespace ref {

const double kU = 6e-8;     // unit roundoff of float

struct EMat {
  int r = 0, c = 0; std::vector<double> v, e;
  EMat() {}
  EMat(int rr, int cc): r(rr), c(cc), v(static_cast<size_t>(rr) * cc), e(static_cast<size_t>(rr) * cc) {}
  size_t ix(int i, int j) const { return static_cast<size_t>(i) * c + j; }
};

struct RefLayer {
  int type; gen::Mat W; std::vector<float> b, scale, offset; std::vector<int> idx; int nl = 0, nr = 0;
};
struct Unstable {};     // the reference itself is too uncertain for a verdict

inline double &StableLimit() { static double t = 1e-2; return t; }
inline void CheckStable(const EMat &m) { for (size_t i = 0; i < m.v.size(); ++i) if (!(m.e[i] <= StableLimit() * std::max(1.0, fabs(m.v[i])))) throw Unstable(); }

inline EMat Apply(const RefLayer &l, const EMat &in) {
  EMat o;
  switch (l.type) {
    case 0: {
      o = EMat(in.r, l.W.c);
      for (int i = 0; i < in.r; ++i) for (int j = 0; j < l.W.c; ++j) {
        double s = 0, abs = 0, err = 0;
        for (int k = 0; k < in.c; ++k) { double w = l.W.at(k, j), x = in.v[in.ix(i, k)]; s += w * x; abs += fabs(w * x); err += fabs(w) * in.e[in.ix(i, k)]; }
        s += l.b[j]; abs += fabs(l.b[j]);
        o.v[o.ix(i, j)] = s; o.e[o.ix(i, j)] = err * 1.001 + abs * kU * (in.c + 4);
      }
      break;
    }
    case 1: o = in; for (auto &x : o.v) if (x < 0) x = 0; break;
    case 2: {
      o = in;
      for (int i = 0; i < in.r; ++i) {
        double ss = 0, er = 0; for (int k = 0; k < in.c; ++k) { double x = in.v[in.ix(i, k)]; ss += x * x; er += 2 * fabs(x) * in.e[in.ix(i, k)] + in.e[in.ix(i, k)] * in.e[in.ix(i, k)]; }
        if (ss == 0 && er == 0) { for (int k = 0; k < in.c; ++k) { o.v[o.ix(i, k)] = 0; o.e[o.ix(i, k)] = 0; } continue; }
        if (ss < 1e-12 * in.c || er > 0.05 * ss || ss > 1e30) throw Unstable();
        double s = sqrt(in.c / ss), rel = 0.6 * (er / ss + (in.c + 4) * kU) + 4 * kU;
        for (int k = 0; k < in.c; ++k) { double x = in.v[in.ix(i, k)]; o.v[o.ix(i, k)] = x * s; o.e[o.ix(i, k)] = s * in.e[in.ix(i, k)] * (1 + rel) + fabs(x * s) * rel; }
      }
      break;
    }
    case 3: case 8: {
      o = in;
      for (int i = 0; i < in.r; ++i) {
        double mx = -INFINITY, me = 0; for (int k = 0; k < in.c; ++k) { mx = std::max(mx, in.v[in.ix(i, k)]); me = std::max(me, in.e[in.ix(i, k)]); }
        double sum = 0; for (int k = 0; k < in.c; ++k) sum += exp(in.v[in.ix(i, k)] - mx);
        for (int k = 0; k < in.c; ++k) {
          double x = in.v[in.ix(i, k)], lp = x - mx - log(sum);
          double le = in.e[in.ix(i, k)] + me + kU * (4 * fabs(x) + 4 * fabs(mx) + 2 * in.c + 30);
          if (l.type == 8) { o.v[o.ix(i, k)] = lp; o.e[o.ix(i, k)] = le; }
          else { if (le > 0.3) throw Unstable(); o.v[o.ix(i, k)] = exp(lp); o.e[o.ix(i, k)] = exp(lp) * 1.5 * le + 1e-36; }
        }
      }
      break;
    }
    case 6: {
      o = EMat(in.r, in.c * static_cast<int>(l.idx.size()));
      for (int i = 0; i < in.r; ++i) for (size_t q = 0; q < l.idx.size(); ++q) {
        int s = std::min(std::max(i + l.idx[q], 0), in.r - 1);
        for (int k = 0; k < in.c; ++k) { o.v[o.ix(i, q * in.c + k)] = in.v[in.ix(s, k)]; o.e[o.ix(i, q * in.c + k)] = in.e[in.ix(s, k)]; }
      }
      break;
    }
    case 7: o = in; for (int i = 0; i < in.r; ++i) for (int k = 0; k < in.c; ++k) { double x = in.v[in.ix(i, k)], y = x * l.scale[k]; o.v[o.ix(i, k)] = y + l.offset[k]; o.e[o.ix(i, k)] = fabs(l.scale[k]) * in.e[in.ix(i, k)] + 3 * kU * (fabs(y) + fabs(l.offset[k])); } break;
    case 9: {
      if (in.r <= l.nl + l.nr) { o = in; break; }
      o = EMat(in.r - l.nl - l.nr, in.c);
      for (int i = 0; i < o.r; ++i) for (int k = 0; k < in.c; ++k) { o.v[o.ix(i, k)] = in.v[in.ix(i + l.nl, k)]; o.e[o.ix(i, k)] = in.e[in.ix(i + l.nl, k)]; }
      break;
    }
  }
  CheckStable(o);
  return o;
}
inline EMat Run(const std::vector<RefLayer> &net, EMat x) { for (auto &l : net) x = Apply(l, x); return x; }

inline std::string LayerBytes(const RefLayer &l) {
  std::string s = "LAY0"; gen::Put<int32_t>(&s, l.type);
  switch (l.type) {
    case 0: s += gen::MatBytes(l.W) + gen::VecBytes(l.b); break;
    case 6: gen::Put<int32_t>(&s, l.idx.size()); for (int i : l.idx) gen::Put<int32_t>(&s, i); break;
    case 7: s += gen::VecBytes(l.scale) + gen::VecBytes(l.offset); break;
    case 9: gen::Put<int32_t>(&s, l.nl); gen::Put<int32_t>(&s, l.nr); break;
  }
  return s;
}
inline std::string NetBytes(const std::vector<RefLayer> &net, int left, int right) {
  std::string s = "NN02"; gen::Put<int32_t>(&s, left); gen::Put<int32_t>(&s, right); gen::Put<int32_t>(&s, net.size());
  for (auto &l : net) s += LayerBytes(l);
  return s;
}
inline RefLayer Linear(pbt::Rng *g, int in, int out, double gain = 1.0) {
  RefLayer l; l.type = 0; l.W = gen::RandMat(g, in, out, gain / sqrt(static_cast<double>(in))); l.b.resize(out); for (auto &x : l.b) x = static_cast<float>(g->gauss() * 0.3); return l;
}
inline RefLayer Simple(int type) { RefLayer l; l.type = type; return l; }
inline RefLayer BatchNorm(pbt::Rng *g, int dim) { RefLayer l; l.type = 7; for (int i = 0; i < dim; ++i) { l.scale.push_back(static_cast<float>(g->gauss())); l.offset.push_back(static_cast<float>(g->gauss())); } return l; }

inline const char *Name(int t) { switch (t) { case 0: return "Linear"; case 1: return "ReLU"; case 2: return "Normalize"; case 3: return "Softmax"; case 6: return "Splice"; case 7: return "BatchNorm"; case 8: return "LogSoftmax"; default: return "Narrow"; } }
inline std::string Describe(const std::vector<RefLayer> &net) { std::string s; for (auto &l : net) { if (!s.empty()) s += '-'; s += Name(l.type); if (l.type == 0) s += pbt::strf("%dx%d", l.W.r, l.W.c); if (l.type == 6) { s += "["; for (int i : l.idx) s += std::to_string(i) + " "; s += "]"; } if (l.type == 9) s += pbt::strf("%d,%d", l.nl, l.nr); } return s; }

}  // namespace ref
#endif
