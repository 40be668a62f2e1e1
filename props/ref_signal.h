// Reference of the feature extractor in double arithmetic with error bounds
#ifndef VERIF_REF_SIGNAL_H_
#define VERIF_REF_SIGNAL_H_
#include <float.h>
#include <complex>
#include <vector>
#include "gen.h"

namespace ref {

// In-place recursive FFT, sign -1 is the forward transform
inline void Fft(std::vector<std::complex<double>> *a, int sign) {
  size_t n = a->size(); if (n == 1) return;
  std::vector<std::complex<double>> e(n / 2), o(n / 2);
  for (size_t i = 0; i < n / 2; ++i) { e[i] = (*a)[2 * i]; o[i] = (*a)[2 * i + 1]; }
  Fft(&e, sign); Fft(&o, sign);
  for (size_t k = 0; k < n / 2; ++k) { std::complex<double> t = std::polar(1.0, sign * 2 * M_PI * k / n) * o[k]; (*a)[k] = e[k] + t; (*a)[k + n / 2] = e[k] - t; }
}

struct Feat { std::vector<double> lo, mid, hi; };    // bounds of the 40 log energies of one frame

inline double Mel(double f) { return 1127.0 * log(1.0 + f / 700.0); }

inline const std::vector<std::vector<double>> &MelWeights() {
  static std::vector<std::vector<double>> w;
  if (w.empty()) {
    double lo = Mel(20), hi = Mel(8000), d = (hi - lo) / 41;
    for (int b = 0; b < 40; ++b) {
      std::vector<double> row(256, 0.0); double l = lo + b * d, c = l + d, r = c + d;
      for (int i = 0; i < 256; ++i) { double m = Mel(i * 31.25); if (m > l && m < r) row[i] = m <= c ? (m - l) / d : (r - m) / d; }
      w.push_back(row);
    }
  }
  return w;
}

inline int NumFrames(long samples) { return samples < 400 ? 0 : 1 + static_cast<int>((samples - 400) / 160); }

// Features of the frame that starts at x[0] (400 samples)
inline Feat FbankFrame(const float *x) {
  const double u = 6e-8;
  double mean = 0, abs = 0; for (int i = 0; i < 400; ++i) { mean += x[i]; abs += fabs(x[i]); }
  mean /= 400; abs /= 400;
  std::vector<double> y(400), w(400);
  for (int i = 0; i < 400; ++i) y[i] = x[i] - mean;
  for (int i = 0; i < 400; ++i) w[i] = (y[i] - 0.97 * (i ? y[i - 1] : y[0])) * (0.54 - 0.46 * cos(2 * M_PI * i / 399));
  std::vector<std::complex<double>> a(512); double norm = 0, amax = 0, ymax = 0;
  for (int i = 0; i < 400; ++i) { a[i] = w[i]; norm += w[i] * w[i]; amax = std::max(amax, fabs(static_cast<double>(x[i]))); ymax = std::max(ymax, fabs(y[i])); }
  norm = sqrt(norm);
  Fft(&a, -1);
  // Error of a windowed sample: a common offset (mean) and a rounding of each sample
  double emean = u * 200 * abs, es = u * (4 * ymax + 2 * amax);
  double efft = emean * 30 + es * 40 + u * 60 * norm;
  Feat f; const auto &mw = MelWeights();
  std::vector<double> p(257), pe(257);
  for (int i = 0; i <= 256; ++i) { double m = std::abs(a[i]); p[i] = m * m; pe[i] = 2 * m * efft + efft * efft + 4 * u * p[i]; }
  for (int b = 0; b < 40; ++b) {
    double E = 0, D = 0;
    for (int i = 0; i < 256; ++i) {
      double ww = mw[b][i], we = 3e-5;       // the mel scale itself is computed in single precision
      bool near = ww > 0 || (i > 0 && mw[b][i - 1] > 0) || (i < 255 && mw[b][i + 1] > 0);
      if (!near) continue;
      E += ww * p[i]; D += ww * pe[i] + we * p[i] + 40 * u * ww * p[i];
    }
    double floor = FLT_EPSILON;
    double slack = 3e-6;
    f.mid.push_back(log(std::max(E, floor)));
    f.lo.push_back(log(std::max(E - D, floor)) - slack - 2e-7 * fabs(log(std::max(E - D, floor))));
    f.hi.push_back(log(std::max(E + D, floor)) + slack + 2e-7 * fabs(log(std::max(E + D, floor))));
  }
  return f;
}
}  // namespace ref
#endif
