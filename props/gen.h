// gen.h -- small generators and helpers shared by the properties
#ifndef VERIF_GEN_H_
#define VERIF_GEN_H_
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <cmath>
#include <string>
#include <vector>
#include "pbt.h"

namespace gen {

inline void WriteFile(const std::string &path, const std::string &data) {
  FILE *f = fopen(path.c_str(), "wb");
  if (!f) { perror(path.c_str()); abort(); }
  if (!data.empty() && fwrite(data.data(), 1, data.size(), f) != data.size()) abort();
  fclose(f);
}

inline std::string ReadAll(const std::string &path) {
  std::string s; FILE *f = fopen(path.c_str(), "rb"); if (!f) return s;
  char b[8192]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f); return s;
}

// String over an alphabet, elements drawn one by one
inline std::string Str(pbt::Case &c, const std::string &alphabet, int lo, int hi) {
  int n = c.range(lo, hi); std::string s;
  for (int i = 0; i < n; ++i) s += alphabet[c.upto(alphabet.size() - 1)];
  return s;
}

inline std::string Esc(const std::string &s, size_t max = 120) {
  std::string o;
  for (unsigned char ch : s) {
    if (o.size() > max) { o += "..."; break; }
    if (ch == '\n') o += "\\n"; else if (ch == '\r') o += "\\r"; else if (ch == '\t') o += "\\t";
    else if (ch < 32 || ch > 126) o += pbt::strf("\\x%02x", ch); else o += ch;
  }
  return o;
}

template <typename T> inline void Put(std::string *s, T v) { s->append(reinterpret_cast<const char *>(&v), sizeof v); }

inline bool SameBits(float a, float b) { return memcmp(&a, &b, 4) == 0; }

}  // namespace gen
#endif

#ifndef VERIF_GEN_FILES_H_
#define VERIF_GEN_FILES_H_
namespace gen {

// Bytes of the binary model formats
template <typename T> inline std::string VecBytes(const std::vector<T> &v) {
  std::string s = "VEC0";
  Put<int32_t>(&s, static_cast<int32_t>(v.size() * sizeof(T) + 4)); Put<int32_t>(&s, static_cast<int32_t>(v.size()));
  s.append(reinterpret_cast<const char *>(v.data()), v.size() * sizeof(T));
  return s;
}
// Row-major matrix
struct Mat {
  int r = 0, c = 0; std::vector<float> d;
  Mat() {}
  Mat(int rr, int cc): r(rr), c(cc), d(static_cast<size_t>(rr) * cc, 0.0f) {}
  float &at(int i, int j) { return d[static_cast<size_t>(i) * c + j]; }
  float at(int i, int j) const { return d[static_cast<size_t>(i) * c + j]; }
};
inline std::string MatBytes(const Mat &m) {
  std::string s = "MAT0";
  Put<int32_t>(&s, 8); Put<int32_t>(&s, m.r); Put<int32_t>(&s, m.c);
  for (int i = 0; i < m.r; ++i) s += VecBytes(std::vector<float>(m.d.begin() + static_cast<size_t>(i) * m.c, m.d.begin() + static_cast<size_t>(i + 1) * m.c));
  return s;
}
inline Mat RandMat(pbt::Rng *r, int rows, int cols, double scale = 1.0) {
  Mat m(rows, cols);
  for (auto &x : m.d) x = static_cast<float>(r->gauss() * scale);
  return m;
}
}  // namespace gen
#endif
