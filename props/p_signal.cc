// C11 feature streaming, C12 feature values, C13 FFT, C14 PCM decoding, C15 WAV header, C25 mean normalization
#include <limits.h>
#include <algorithm>
#include <memory>
#include "ce_stt.h"
#include "cmvn.h"
#include "fbank.h"
#include "gen.h"
#include "pcm_reader.h"
#include "ref_signal.h"
#include "srfft.h"

using namespace pocketkaldi;
using pbt::Case;

namespace {
std::vector<float> GenSignal(Case &c, int n, std::string *kind) {
  pbt::Rng g(c.seed()); std::vector<float> x(n); double amp = c.pick(std::vector<double>{1, 100, 3000, 32767});
  int k = c.weighted({5, 4, 2, 2, 2, 1, 1, 2}); const char *names[] = {"noise", "tones", "silence-and-noise", "impulses", "dc", "zeros", "square", "quiet-noise"}; *kind = names[k];
  double f1 = g.unit() * M_PI, f2 = g.unit() * 0.3, ph = g.unit() * 6; int period = 2 + g.upto(200);
  for (int i = 0; i < n; ++i) {
    double v = 0;
    switch (k) {
      case 0: v = g.gauss() * amp / 3; break;
      case 1: v = amp * (0.6 * sin(f1 * i + ph) + 0.3 * sin(f2 * i)); break;
      case 2: v = (i / 700) % 2 ? g.gauss() * amp / 3 : 0; break;
      case 3: v = (i % period) == 0 ? amp : 0; break;
      case 4: v = amp; break;
      case 5: v = 0; break;
      case 6: v = (i / period) % 2 ? amp : -amp; break;
      default: v = (g.upto(2) == 0) ? 1 : 0; break;
    }
    v = std::max(-32768.0, std::min(32767.0, v)); x[i] = static_cast<float>(rint(v));
  }
  return x;
}
void Append(const Matrix<float> &m, std::vector<std::vector<float>> *o) { for (int i = 0; i < m.NumRows(); ++i) { std::vector<float> r; for (int j = 0; j < m.NumCols(); ++j) r.push_back(m(i, j)); o->push_back(r); } }
const Fbank &TheFbank() { static Fbank *f = new Fbank(); return *f; }

struct FStream { std::vector<float> x; std::string kind; int pos = 0; std::unique_ptr<Fbank::Instance> inst{new Fbank::Instance()}; std::vector<std::vector<float>> got; };
int SampleCount(Case &c, int maxframes) { if (c.chance(1, 3)) return std::max(0, 400 + 160 * c.range(-1, maxframes - 1) + c.range(-2, 2)); return c.range(0, 400 + 160 * maxframes); }
}  // namespace

PROPERTY("C11", fbank_chunking, 8000, 120000) {
  int ns = c.range(1, 3); std::vector<FStream> s(ns); std::string d; int total = 0;
  for (auto &q : s) { int n = SampleCount(c, 12); q.x = GenSignal(c, n, &q.kind); d += pbt::strf("%d %s, ", n, q.kind.c_str()); total += n; }
  int style = c.weighted({4, 2, 2, 2});      // sizes of the chunks
  int chunks = 0; bool empties = false; Matrix<float> out;
  for (;;) {
    std::vector<int> todo; for (int i = 0; i < ns; ++i) if (s[i].pos < static_cast<int>(s[i].x.size())) todo.push_back(i);
    if (todo.empty()) break;
    FStream &q = s[todo[c.upto(todo.size() - 1)]]; int left = q.x.size() - q.pos, n;
    switch (style) { case 0: n = c.range(1, 700); break; case 1: n = c.range(1, 3) * 160 + c.range(-1, 1); break; case 2: n = c.chance(1, 3) ? c.range(1, 5) : c.range(390, 410); break; default: n = c.range(20, 90); }
    if (c.chance(1, 12)) { n = 0; empties = true; }
    n = std::min(n, left); Vector<float> w(n); for (int i = 0; i < n; ++i) w(i) = q.x[q.pos + i];
    TheFbank().Process(q.inst.get(), w, &out); q.pos += n; ++chunks; Append(out, &q.got);
    REQUIRE(static_cast<int>(q.got.size()) == ref::NumFrames(q.pos), "%zu frames after %d samples, expected %d", q.got.size(), q.pos, ref::NumFrames(q.pos));
  }
  c.note(d + pbt::strf("%d chunks", chunks)); if (empties) c.label("empty-chunks"); if (ns > 1) c.label("interleaved"); c.label(pbt::strf("style%d", style));
  for (auto &q : s) {
    if (q.got.size() > 1 && chunks > 1) c.nontrivial();
    Fbank::Instance one; Vector<float> w(q.x.size()); for (size_t i = 0; i < q.x.size(); ++i) w(i) = q.x[i];
    std::vector<std::vector<float>> whole; TheFbank().Process(&one, w, &out); Append(out, &whole);
    REQUIRE(whole.size() == q.got.size(), "%zu frames in one piece, %zu in chunks", whole.size(), q.got.size());
    for (size_t t = 0; t < whole.size(); ++t) { REQUIRE(whole[t].size() == 40 && q.got[t].size() == 40, "frame of %zu values", q.got[t].size()); for (int j = 0; j < 40; ++j) REQUIRE(whole[t][j] == q.got[t][j], "frame %zu value %d: %.8g in chunks, %.8g in one piece", t, j, q.got[t][j], whole[t][j]); }
  }
}

// The first pieces of a stream, of all sizes up to a little more than a frame, and a third with the rest
PROPERTY("C11", first_pieces, 1600, 8000, 60) {
  int total = 400 + 160 * c.range(0, 2) + c.range(0, 159), a = c.range(0, 420), most = std::min(420, total - a), step = c.flip() ? 1 : 3; std::string kind; std::vector<float> x = GenSignal(c, total, &kind); Matrix<float> out; std::vector<std::vector<float>> whole; auto feed = [&](Fbank::Instance *in, int from, int n, std::vector<std::vector<float>> *o) { Vector<float> v(n); for (int i = 0; i < n; ++i) v(i) = x[from + i]; TheFbank().Process(in, v, &out); Append(out, o); };
  { Fbank::Instance one; feed(&one, 0, total, &whole); } REQUIRE(static_cast<int>(whole.size()) == ref::NumFrames(total), "%zu frames of %d samples, expected %d", whole.size(), total, ref::NumFrames(total)); c.note(pbt::strf("%d samples of %s, %d first", total, kind.c_str(), a)); if (a > 0) c.nontrivial();
  for (int b = step > 1 ? c.upto(2) : 0; b <= most; b += step) {
    Fbank::Instance in; std::vector<std::vector<float>> got; feed(&in, 0, a, &got); feed(&in, a, b, &got); REQUIRE(static_cast<int>(got.size()) == ref::NumFrames(a + b), "%zu frames after %d and %d samples, expected %d", got.size(), a, b, ref::NumFrames(a + b)); feed(&in, a + b, total - a - b, &got); REQUIRE(got.size() == whole.size(), "%zu frames after %d, %d and %d samples, expected %zu", got.size(), a, b, total - a - b, whole.size());
    for (size_t t = 0; t < whole.size(); ++t) REQUIRE(got[t] == whole[t], "frame %zu differs when the samples come as %d, %d and %d", t, a, b, total - a - b);
  }
}

PROPERTY("C11", fbank_long_streams, 160, 3000, 60) {
  int frames = c.chance(1, 40) ? c.range(20000, 26000) : c.range(20, c.chance(1, 4) ? 6000 : 400), n = 400 + 160 * (frames - 1) + c.range(0, 159); std::string kind; std::vector<float> x = GenSignal(c, n, &kind); pbt::Rng g(c.seed()); int style = c.upto(4), pos = 0, pieces = 0; Fbank::Instance one, inst; Matrix<float> out; std::vector<std::vector<float>> whole, got; Vector<float> w(n); for (int i = 0; i < n; ++i) w(i) = x[i];
  TheFbank().Process(&one, w, &out); Append(out, &whole); REQUIRE(static_cast<int>(whole.size()) == frames, "%zu frames of %d samples at once, expected %d", whole.size(), n, frames);
  while (pos < n) { int k; switch (style) { case 0: k = g.range(1, 20000); break; case 1: k = g.upto(3) ? g.range(1, 300) : g.range(5000, 60000); break; case 2: k = 160; break; case 3: k = g.range(n / 3, n); break; default: k = g.range(150, 170) * g.range(1, 4); } k = std::min(k, n - pos); Vector<float> v(k); for (int i = 0; i < k; ++i) v(i) = x[pos + i]; TheFbank().Process(&inst, v, &out); pos += k; ++pieces; Append(out, &got); REQUIRE(static_cast<int>(got.size()) == ref::NumFrames(pos), "%zu frames after %d samples, expected %d", got.size(), pos, ref::NumFrames(pos)); }
  c.note(pbt::strf("%d frames, %s, %d pieces", frames, kind.c_str(), pieces)); c.label(pbt::strf("style%d", style)); if (pieces > 1) c.nontrivial();
  for (size_t t = 0; t < whole.size(); ++t) for (int j = 0; j < 40; ++j) REQUIRE(whole[t][j] == got[t][j], "frame %zu value %d: %.8g in pieces, %.8g at once", t, j, got[t][j], whole[t][j]);
  for (int k = 0; k < 5; ++k) { size_t t = g.upto(frames - 1); ref::Feat f = ref::FbankFrame(&x[t * 160]); for (int j = 0; j < 40; ++j) { float v = whole[t][j]; REQUIRE(v >= f.lo[j] && v <= f.hi[j], "frame %zu filter %d: %.7g, expected %.7g in [%.7g, %.7g]", t, j, v, f.mid[j], f.lo[j], f.hi[j]); } }
}

PROPERTY("C12", fbank_reference, 16000, 200000) {
  int n = 400 + 160 * c.range(0, c.chance(1, 60) ? 400 : 7) + c.range(0, 159); std::string kind; std::vector<float> x = GenSignal(c, n, &kind);
  if (c.chance(1, 5)) { double k = c.pick(std::vector<double>{65536, 1e-3, 0.25}); for (auto &v : x) v = static_cast<float>(v * k); kind += " scaled"; }
  c.note(pbt::strf("%d samples, %s", n, kind.c_str())); c.label(kind); if (kind != "zeros") c.nontrivial();
  Vector<float> w(n); for (int i = 0; i < n; ++i) w(i) = x[i];
  Fbank::Instance inst; Matrix<float> out; TheFbank().Process(&inst, w, &out);
  REQUIRE(out.NumRows() == ref::NumFrames(n), "%d frames of %d samples", out.NumRows(), n);
  for (int t = 0; t < out.NumRows(); ++t) {
    ref::Feat f = ref::FbankFrame(&x[t * 160]);
    for (int j = 0; j < 40; ++j) { float v = out(t, j); REQUIRE(v >= f.lo[j] && v <= f.hi[j], "frame %d filter %d: %.7g, expected %.7g in [%.7g, %.7g]", t, j, v, f.mid[j], f.lo[j], f.hi[j]); }
  }
}

// ---------------------------------------------------------------- C13

PROPERTY("C13", fft_forward_inverse, 20000, 300000) {
  int logn = c.chance(1, 150) ? c.range(13, 16) : c.range(2, 12), n = 1 << logn; pbt::Rng g(c.seed()); std::vector<float> x(n); int k = c.weighted({4, 2, 2, 2, 1}); const char *names[] = {"noise", "impulse", "cosine", "sparse", "zero"};
  int p = g.upto(n - 1); double sc = c.pick(std::vector<double>{1, 3e4, 1e-3});
  for (int i = 0; i < n; ++i) { double v = 0; switch (k) { case 0: v = g.gauss(); break; case 1: v = i == p; break; case 2: v = cos(2 * M_PI * p * i / n + 0.3); break; case 3: v = g.upto(15) ? 0 : g.gauss(); break; } x[i] = static_cast<float>(v * sc); }
  c.note(pbt::strf("N = %d, %s, scale %g", n, names[k], sc)); c.label(pbt::strf("N=%d", n)); if (k != 4) c.nontrivial();
  SRFFT fft(n); int extra = c.range(0, 3); std::vector<float> data(x), buf(n + extra, 123.0f);
  fft.Compute(data.data(), n, true, buf.data(), buf.size());
  std::vector<std::complex<double>> a(n); double norm = 0; for (int i = 0; i < n; ++i) { a[i] = x[i]; norm += static_cast<double>(x[i]) * x[i]; } norm = sqrt(norm); ref::Fft(&a, -1);
  double tol = norm * (3e-7 * logn + sqrt(n) * (1e-7 * logn + 2e-8 * n)) + 1e-30;    // the twiddle factors come from a recurrence in single precision
  auto at = [&](int i) -> double { return data[i]; };
  REQUIRE(fabs(at(0) - a[0].real()) <= tol, "bin 0 is %g, expected %g (N=%d)", at(0), a[0].real(), n);
  REQUIRE(fabs(at(1) - a[n / 2].real()) <= tol, "bin N/2 is %g, expected %g (N=%d)", at(1), a[n / 2].real(), n);
  for (int i = 1; i < n / 2; ++i) REQUIRE(fabs(at(2 * i) - a[i].real()) <= tol && fabs(at(2 * i + 1) - a[i].imag()) <= tol, "bin %d is %g%+gi, expected %g%+gi (N=%d)", i, at(2 * i), at(2 * i + 1), a[i].real(), a[i].imag(), n);
  fft.Compute(data.data(), n, false, buf.data(), buf.size());
  double tol2 = n * norm * (1e-6 * logn + 2e-8 * n) + 1e-30;
  for (int i = 0; i < n; ++i) REQUIRE(fabs(at(i) - static_cast<double>(x[i]) * n) <= tol2, "sample %d is %g after the inverse, expected N*%g (N=%d)", i, at(i), x[i], n);
  // Another object of another size in between changes nothing
  if (c.chance(1, 4)) { int m = 1 << c.range(2, 12); SRFFT other(m); std::vector<float> o(m, 1.0f), ob(m); other.Compute(o.data(), m, c.flip(), ob.data(), m); }
  // The object is not changed by its use, the temporary buffer carries nothing over
  std::vector<float> again(x), buf2(n, -5.0f); fft.Compute(again.data(), n, true, buf2.data(), n); std::vector<float> first(x), buf3(n, NAN); fft.Compute(first.data(), n, true, buf3.data(), n);
  for (int i = 0; i < n; ++i) REQUIRE(again[i] == first[i], "transforms of the same data differ at %d", i);
}

// ---------------------------------------------------------------- C14

namespace {
struct PStream { int bits; std::string bytes; std::vector<float> exp; size_t pos = 0; std::vector<float> got; std::unique_ptr<WaveReader> rd{new WaveReader()}; };
void GenPcm(Case &c, PStream *s) {
  s->bits = c.pick(std::vector<int>{16, 8, 32}); int n = c.range(0, 60); pbt::Rng g(c.seed()); int odd = s->bits / 8 > 1 ? c.upto(s->bits / 8 - 1) : 0;
  for (int i = 0; i < n; ++i) {
    if (s->bits == 8) { int v = g.upto(5) ? g.range(0, 255) : (g.upto(1) ? 255 : 0); s->bytes += static_cast<char>(v); s->exp.push_back(v - 128); }
    else if (s->bits == 16) { static const int edge[] = {0, -1, 1, 32767, -32768, 255, 256, -256, 128, -128}; int16_t v = g.upto(3) ? g.range(-32768, 32767) : edge[g.upto(9)]; gen::Put<int16_t>(&s->bytes, v); s->exp.push_back(v); }
    else { static const int edge[] = {0, -1, 1, INT_MAX, INT_MIN, 65535, 65536, -65536, 1 << 24, (1 << 24) + 1}; int32_t v = g.upto(3) ? static_cast<int32_t>(g.next()) : edge[g.upto(9)]; gen::Put<int32_t>(&s->bytes, v); s->exp.push_back(static_cast<float>(v)); }
  }
  for (int i = 0; i < odd; ++i) s->bytes += static_cast<char>(g.next());
}
}  // namespace

PROPERTY("C14", pcm_chunks, 80000, 1000000) {
  int ns = c.range(1, 2); std::vector<PStream> s(ns); std::string d; bool split = false;
  for (auto &q : s) { GenPcm(c, &q); ce_wave_format_t f = {1, 16000, q.bits}; REQUIRE(q.rd->SetFormat(f).ok(), "SetFormat(%d bits)", q.bits); d += pbt::strf("%zu bytes of %d-bit, ", q.bytes.size(), q.bits); c.label(pbt::strf("%d-bit", q.bits)); }
  Vector<float> out; int bad = 0;
  for (;;) {
    std::vector<int> todo; for (int i = 0; i < ns; ++i) if (s[i].pos < s[i].bytes.size()) todo.push_back(i);
    if (todo.empty()) break;
    PStream &q = s[todo[c.upto(todo.size() - 1)]];
    if (c.chance(1, 15)) { ++bad; Status st = c.flip() ? q.rd->Process(nullptr, 4, &out) : q.rd->Process(q.bytes.data(), -c.range(0, 3), &out); REQUIRE(!st.ok(), "Process() accepted no data"); continue; }
    int n = std::min<size_t>(c.chance(1, 2) ? c.range(1, 5) : c.range(1, 60), q.bytes.size() - q.pos);
    std::string chunk = q.bytes.substr(q.pos, n);     // a buffer of its own, so that reads past it are seen
    std::unique_ptr<char[]> heap(new char[n]); memcpy(heap.get(), chunk.data(), n);
    Status st = q.rd->Process(heap.get(), n, &out); REQUIRE(st.ok(), "Process(%d bytes): %s", n, st.what().c_str()); q.pos += n;
    if (q.pos % (q.bits / 8)) split = true;
    for (int i = 0; i < out.Dim(); ++i) q.got.push_back(out(i));
    REQUIRE(q.got.size() == q.pos / (q.bits / 8), "%zu samples after %zu bytes of %d-bit", q.got.size(), q.pos, q.bits);
  }
  c.note(d + (split ? "samples split over chunks" : "")); if (split) c.label("split-sample"); if (bad) c.label("rejected-calls");
  for (auto &q : s) {
    if (q.exp.size() > 1) c.nontrivial();
    REQUIRE(q.got.size() == q.exp.size(), "%zu samples, expected %zu", q.got.size(), q.exp.size());
    for (size_t i = 0; i < q.exp.size(); ++i) REQUIRE(q.got[i] == q.exp[i], "%d-bit sample %zu is %g, expected %g", q.bits, i, q.got[i], q.exp[i]);
    // After Reset() the reader starts a new stream: bytes of an incomplete sample are dropped
    q.rd->Reset(); std::string one; float e; if (q.bits == 8) { one = "\x90"; e = 16; } else if (q.bits == 16) { gen::Put<int16_t>(&one, -1234); e = -1234; } else { gen::Put<int32_t>(&one, -77777); e = -77777; }
    REQUIRE(q.rd->Process(one.data(), one.size(), &out).ok() && out.Dim() == 1 && out(0) == e, "first sample after Reset() is wrong (%d-bit)", q.bits);
  }
}

PROPERTY("C14", pcm_large_pieces, 600, 8000, 60) {
  int bits = c.pick(std::vector<int>{16, 8, 32}), by = bits / 8, n = c.range(1000, c.chance(1, 4) ? 300000 : 20000); pbt::Rng g(c.seed()); std::string b(static_cast<size_t>(n) * by + c.upto(by - 1), '\0'); for (auto &x : b) x = static_cast<char>(g.next());
  ce_wave_format_t f = {1, 16000, bits}; WaveReader r; REQUIRE(r.SetFormat(f).ok(), "SetFormat(%d bits)", bits); size_t pos = 0, got = 0; int style = c.upto(3), pieces = 0; Vector<float> out;
  while (pos < b.size()) {
    size_t k; switch (style) { case 0: k = g.range(1, 70000); break; case 1: k = g.upto(4) ? g.range(1, 9) : g.range(30000, 140000); break; case 2: k = 1024 * g.range(1, 64) + g.range(-1, 1); break; default: k = b.size(); }
    k = std::min(k, b.size() - pos); std::unique_ptr<char[]> heap(new char[k]); memcpy(heap.get(), &b[pos], k); Status st = r.Process(heap.get(), k, &out); REQUIRE(st.ok(), "Process(%zu bytes): %s", k, st.what().c_str()); pos += k; ++pieces;
    REQUIRE(got + out.Dim() == pos / by, "%zu samples after %zu bytes of %d-bit", got + out.Dim(), pos, bits);
    for (int i = 0; i < out.Dim(); ++i, ++got) { float e; const char *q = &b[got * by]; if (bits == 8) e = static_cast<uint8_t>(*q) - 128; else if (bits == 16) { int16_t v; memcpy(&v, q, 2); e = v; } else { int32_t v; memcpy(&v, q, 4); e = static_cast<float>(v); } REQUIRE(out(i) == e, "%d-bit sample %zu is %g, expected %g", bits, got, out(i), e); }
  }
  c.note(pbt::strf("%zu bytes of %d-bit in %d pieces", b.size(), bits, pieces)); c.label(pbt::strf("%d-bit", bits)); c.nontrivial();
}

PROPERTY("C14", pcm_formats, 8000, 60000) {
  ce_wave_format_t f; f.num_channels = c.weighted({4, 1}) ? c.pick(std::vector<int>{0, 2, -1, 3, 256, 65537}) : 1;
  f.sample_rate = c.weighted({4, 1}) ? c.pick(std::vector<int>{8000, 44100, 15999, 16001, 0, -16000, 48000, 81536}) : 16000;
  f.bits_per_sample = c.weighted({4, 2}) ? c.pick(std::vector<int>{0, 1, 4, 7, 9, 12, 15, 17, 20, 24, 31, 33, 64, -8, -16, 24, 264}) : c.pick(std::vector<int>{8, 16, 32});
  bool ok = f.num_channels == 1 && f.sample_rate == 16000 && (f.bits_per_sample == 8 || f.bits_per_sample == 16 || f.bits_per_sample == 32);
  c.note(pbt::strf("%d channels, %d Hz, %d bits", f.num_channels, f.sample_rate, f.bits_per_sample)); c.label(ok ? "supported" : "unsupported"); c.nontrivial();
  WaveReader r; Vector<float> out; char data[8] = {1, 2, 3, 4, 5, 6, 7, 8};
  REQUIRE(!r.Process(data, 8, &out).ok(), "Process() before SetFormat() succeeded");
  Status st = r.SetFormat(f); REQUIRE(st.ok() == ok, "SetFormat(%d channels, %d Hz, %d bits): ok=%d", f.num_channels, f.sample_rate, f.bits_per_sample, st.ok());
  st = r.Process(data, 8, &out); REQUIRE(st.ok() == ok, "Process() after SetFormat() %s: ok=%d", ok ? "succeeded" : "failed", st.ok());
  if (ok) REQUIRE(out.Dim() == 8 / (f.bits_per_sample / 8), "%d samples of 8 bytes", out.Dim());
}

// ---------------------------------------------------------------- C15

PROPERTY("C15", wav_headers, 60000, 600000) {
  int32_t rate = c.pick(std::vector<int32_t>{16000, 8000, 44100, 48000, 11025, 22050, 96000, 1, 0}); int16_t bits = c.pick(std::vector<int16_t>{16, 8, 32, 24, 12, 4});
  int16_t ch = c.pick(std::vector<int16_t>{1, 2, 6, 0, 3, 256, 257, -1}), format = 1, align; int32_t size1 = 16, brate; bool mono_sizes = ch == 1 || c.flip();
  align = bits / 8 * (mono_sizes ? 1 : ch); brate = rate * bits / 8 * (mono_sizes ? 1 : ch);
  int data = c.chance(1, 100) ? c.range(1000, 100000) : c.range(0, 40); std::string desc = "intact"; bool ok = align == bits / 8 && brate == rate * bits / 8;
  std::string riff = "RIFF", wave = "WAVE", fmt = "fmt ", dat = "data";
  int mode = c.weighted({6, 4, 1, 1, 1, 1, 1, 1, 1, 1}); auto flipc = [&](std::string *s) { (*s)[c.upto(3)] ^= 1 << c.upto(6); ok = false; };
  switch (mode) {
    case 2: flipc(&riff); desc = "RIFF"; break; case 3: flipc(&wave); desc = "WAVE"; break; case 4: flipc(&fmt); desc = "fmt"; break; case 5: flipc(&dat); desc = "data"; break;
    case 6: size1 = c.pick(std::vector<int32_t>{18, 40, 0, -16, 15, 65552}); ok = false; desc = "fmt size"; break;
    case 7: format = c.pick(std::vector<int16_t>{0, 2, 3, 6, 7, -2, 257}); ok = false; desc = "audio format"; break;
    case 8: { int32_t b = brate; brate += c.pick(std::vector<int32_t>{1, -1, 16, 65536, 32000}); ok = ok && b == brate; desc = "byte rate"; if (align == bits / 8 && brate == rate * bits / 8) ok = true; break; }
    case 9: { align += c.pick(std::vector<int16_t>{1, -1, 2, 256}); ok = align == bits / 8 && brate == rate * bits / 8; desc = "block align"; break; }
  }
  std::string h = riff; gen::Put<int32_t>(&h, c.chance(1, 4) ? c.pick(std::vector<int32_t>{-1, 0, 36, 35 + data, INT_MAX}) : 36 + data); h += wave + fmt; gen::Put(&h, size1); gen::Put(&h, format); gen::Put(&h, ch); gen::Put(&h, rate); gen::Put(&h, brate); gen::Put(&h, align); gen::Put(&h, bits); h += dat; gen::Put<int32_t>(&h, c.chance(1, 4) ? c.pick(std::vector<int32_t>{-1, 0, INT_MAX}) : data);
  pbt::Rng g(c.seed()); std::string body; for (int i = 0; i < data; ++i) body += static_cast<char>(g.next());
  std::string file = h + body; if (mode == 1) { file.resize(c.upto(43)); ok = false; desc = pbt::strf("truncated to %zu bytes", file.size()); }
  std::string path = c.dir() + "/a.wav"; gen::WriteFile(path, file);
  c.note(pbt::strf("%d ch %d Hz %d bits, %d bytes of data, %s", ch, rate, bits, data, desc.c_str())); c.label(ok ? "valid" : "invalid " + desc.substr(0, 9)); c.nontrivial();
  {
    util::ReadableFile fd; REQUIRE(fd.Open(path).ok(), "open"); ce_wave_format_t f = {-1, -1, -1}; Status st = ReadPcmHeader(&fd, &f);
    REQUIRE(st.ok() == ok, "ReadPcmHeader: ok=%d on a header %s (%d ch, %d Hz, %d bits)", st.ok(), desc.c_str(), ch, rate, bits);
    if (ok) { REQUIRE(f.num_channels == ch && f.sample_rate == rate && f.bits_per_sample == bits, "format read as %d ch, %d Hz, %d bits", f.num_channels, f.sample_rate, f.bits_per_sample); if (data) { std::string rest(data, 0); REQUIRE(fd.Read(&rest[0], data).ok() && rest == body, "the file is not positioned at the samples"); } }
  }
  if (ok && ch == 1 && rate == 16000 && (bits == 8 || bits == 16 || bits == 32) && data >= 1) {
    Vector<float> v; Status st = Read16kPcm(path.c_str(), &v); int bps = bits / 8; REQUIRE(st.ok(), "Read16kPcm of a valid file: %s", st.what().c_str()); REQUIRE(v.Dim() == data / bps, "Read16kPcm: %d samples, expected %d", v.Dim(), data / bps); c.label("whole-file");
    for (int i = 0; i < v.Dim(); ++i) { double e; if (bps == 1) e = static_cast<uint8_t>(body[i]) - 128; else if (bps == 2) { int16_t t; memcpy(&t, &body[2 * i], 2); e = t; } else { int32_t t; memcpy(&t, &body[4 * i], 4); e = static_cast<float>(t); } REQUIRE(v(i) == e, "Read16kPcm sample %d is %g, expected %g", i, v(i), e); }
  } else if (!ok) { Vector<float> v; REQUIRE(!Read16kPcm(path.c_str(), &v).ok(), "Read16kPcm accepted an invalid file"); }
}

// ---------------------------------------------------------------- C25

PROPERTY("C25", cmvn_reference, 2400, 30000, 120) {
  int frames = c.weighted({3, 2, 2}); frames = frames == 0 ? c.range(1, 60) : frames == 1 ? c.range(380, 640) : c.chance(1, 20) ? c.range(1500, 9000) : c.range(600, 1500);
  pbt::Rng g(c.seed()); double mag = c.pick(std::vector<double>{1, 10, 100}), drift = g.gauss() * mag / 200; std::vector<double> base(40); for (auto &b : base) b = g.gauss() * mag;
  Matrix<float> raw(frames, 40); for (int t = 0; t < frames; ++t) for (int j = 0; j < 40; ++j) raw(t, j) = static_cast<float>(base[j] + drift * t + g.gauss() * mag * 0.3);
  double gcount = c.pick(std::vector<double>{1, 50, 200, 600, 123456}); Vector<float> glob(41); for (int j = 0; j < 40; ++j) glob(j) = static_cast<float>(gcount * g.gauss() * mag); glob(40) = static_cast<float>(gcount);
  c.note(pbt::strf("%d frames, magnitude %g, global count %g", frames, mag, gcount)); c.label(frames > 600 ? "sliding" : frames > 400 ? "smoothing-tail" : "short"); if (frames > 1) c.nontrivial();
  CMVN cm(glob, raw); bool two = c.flip(); std::unique_ptr<CMVN> other; if (two) other.reset(new CMVN(glob, raw));
  std::vector<double> sum(40, 0.0), maxabs(40, 0.0);
  // The object keeps copies: what happens to the matrices afterwards does not matter
  Matrix<float> keep(frames, 40); keep.CopyFromMat(raw); std::vector<double> gl(41); for (int j = 0; j <= 40; ++j) gl[j] = glob(j);
  if (c.flip()) { raw.SetZero(); glob.SetZero(); }
  int lag = c.range(0, 5); Vector<float> f(40), f2(40);
  for (int t = 0; t < frames; ++t) {
    f.Set(-99); cm.GetFrame(t, &f); if (two && t >= lag) other->GetFrame(t - lag, &f2);
    int n = std::min(t + 1, 600); double cg = n >= 600 ? 0 : std::min(600.0 - n, 200.0);
    for (int j = 0; j < 40; ++j) {
      sum[j] += keep(t, j); if (t >= 600) sum[j] -= keep(t - 600, j); maxabs[j] = std::max(maxabs[j], fabs(static_cast<double>(keep(t, j))));
      double mean = (sum[j] + cg / gl[40] * gl[j]) / (n + cg), e = keep(t, j) - mean;
      double smax = maxabs[j] * 600 + 200 * fabs(gl[j] / gl[40]);
      double tol = 6e-8 * (t + 8) * smax / (n + cg) + 1e-6 * (fabs(static_cast<double>(keep(t, j))) + fabs(mean)) + 1e-9;
      if (t < 600) tol = 6e-8 * (t + 8) * (maxabs[j] * (t + 1) + 200 * fabs(gl[j] / gl[40])) / (n + cg) + 1e-6 * (fabs(static_cast<double>(keep(t, j))) + fabs(mean)) + 1e-9;
      REQUIRE(fabs(f(j) - e) <= tol, "frame %d dimension %d of %d frames: %.8g, expected %.8g", t, j, frames, f(j), e);
    }
  }
}
