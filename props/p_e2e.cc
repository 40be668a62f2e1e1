// C01 streaming, C02 isolation, C07 whole pipeline, C20 model loading, C28 resources, C31 failed calls
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <memory>
#include <thread>
#include "ce_stt.h"
#include "gen.h"
#include "ref_long.h"
#include "ref_model.h"
#include "symbol_table.h"

using pbt::Case;
using ref::Model;
using ref::Audio;
using ref::Judge;

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#endif

namespace {
struct Stt { ce_stt_t *p = nullptr; explicit Stt(const std::string &conf) { p = ce_stt_init(conf.c_str()); } ~Stt() { if (p) ce_stt_destroy(p); } Stt(const Stt &) = delete; };
struct Utt { ce_utt_t *p = nullptr; Utt(ce_stt_t *r, const ce_wave_format_t &f) { p = ce_utt_init(r, &f); } ~Utt() { if (p) ce_utt_destroy(p); } Utt(const Utt &) = delete; };
struct Result { std::string hyp; float score = 0; long samples = 0; std::map<size_t, std::string> partial; std::map<size_t, float> partial_score; };

// Feeds bytes[from, to) from a buffer of its own; returns what ce_stt_process returned
int Feed(ce_utt_t *u, const std::string &b, size_t from, size_t to) { std::unique_ptr<char[]> h(new char[to - from]); memcpy(h.get(), b.data() + from, to - from); return ce_stt_process(u, h.get(), static_cast<int32_t>(to - from)); }
std::vector<size_t> Cuts(Case &c, size_t n, int bits) {
  std::vector<size_t> cut; size_t p = 0; int style = c.weighted({3, 3, 2, 2, 1}), by = bits / 8, k = 0;
  while (p < n && ++k < 400) { size_t s; switch (style) { case 0: s = c.range(1, 3000); break; case 1: s = 160 * by * c.range(1, 12) + c.range(-1, 1); break; case 2: s = 1024; break; case 3: s = c.chance(1, 2) ? c.range(1, 7) : c.range(300, 5000); break; default: s = c.range(5000, 40000); } p = std::min(n, p + s); cut.push_back(p); }
  if (n && (cut.empty() || cut.back() != n)) cut.push_back(n); return cut;
}
Result Decode(ce_stt_t *r, const Audio &a, const std::vector<size_t> &cuts) {
  Utt u(r, a.Format()); REQUIRE(u.p, "ce_utt_init: %s", ce_stt_last_error()); Result q; size_t p = 0;
  REQUIRE(std::string(u.p->hyp).empty(), "a new utterance has the hypothesis '%s'", u.p->hyp); REQUIRE(u.p->loglikelihood_per_frame == 0, "a new utterance has the score %g", u.p->loglikelihood_per_frame);
  for (size_t e : cuts) { int n = Feed(u.p, a.bytes, p, e); long want = static_cast<long>(e / (a.bits / 8)) - static_cast<long>(p / (a.bits / 8)); REQUIRE(n == want, "ce_stt_process of bytes %zu to %zu returned %d, expected %ld", p, e, n, want); q.samples += n; p = e; q.partial[p] = u.p->hyp; q.partial_score[p] = u.p->loglikelihood_per_frame; }
  ce_stt_end_of_stream(u.p); q.hyp = u.p->hyp; q.score = u.p->loglikelihood_per_frame; return q;
}
bool SameScore(float a, float b) { return (a != a && b != b) || a == b || fabs(a - b) <= 1e-5 * (1 + fabs(a) + fabs(b)); }
void Same(const Result &a, const Result &b, const char *what) {
  REQUIRE(a.hyp == b.hyp, "%s: final hypothesis '%s' against '%s'", what, a.hyp.c_str(), b.hyp.c_str());
  REQUIRE(SameScore(a.score, b.score), "%s: score %.9g against %.9g ('%s')", what, a.score, b.score, a.hyp.c_str());
}
}

// ---------------------------------------------------------------- C01
PROPERTY("C01", chunk_invariance, 1600, 24000) {
  Model m; ref::ModelShape sh; sh.lm_of_12 = 1; sh.sinks = c.chance(1, 4); GenModel(c, &m, c.dir(), sh); m.Write(); Audio a; GenAudio(c, &a, c.chance(1, 3) ? 120 : 40, false);
  c.note(m.Describe()); c.note(pbt::strf("%zu samples of %d-bit %s", a.x.size(), a.bits, a.kind.c_str())); Stt r(m.config); REQUIRE(r.p, "ce_stt_init: %s", ce_stt_last_error());
  std::vector<size_t> whole; if (!a.bytes.empty()) whole.push_back(a.bytes.size()); Result one = Decode(r.p, a, whole); REQUIRE(one.samples == static_cast<long>(a.x.size()), "%ld samples read of %zu", one.samples, a.x.size());
  int variants = c.range(1, 2); std::vector<Result> all;
  for (int i = 0; i < variants; ++i) {
    std::vector<size_t> cuts = Cuts(c, a.bytes.size(), a.bits); Result q = Decode(r.p, a, cuts); c.note(pbt::strf("%zu chunks", cuts.size())); Same(q, one, "chunked against one piece"); REQUIRE(q.samples == one.samples, "%ld samples read in chunks, %ld in one piece", q.samples, one.samples);
    for (auto &kv : q.partial) for (auto &o : all) { auto it = o.partial.find(kv.first); if (it != o.partial.end()) REQUIRE(it->second == kv.second, "intermediate hypothesis at byte %zu is '%s' or '%s'", kv.first, it->second.c_str(), kv.second.c_str()); }
    if (!a.bytes.empty() && q.partial.rbegin()->second.size()) c.label("intermediate hypothesis");
    // The intermediate result at some position is that of a stream cut there and nowhere else
    if (cuts.size() > 2) { size_t at = cuts[c.upto(cuts.size() - 1)]; Result two = Decode(r.p, a, at == a.bytes.size() ? std::vector<size_t>{at} : std::vector<size_t>{at, a.bytes.size()}); Same(two, one, "two pieces against one"); REQUIRE(two.partial[at] == q.partial[at], "intermediate hypothesis at byte %zu is '%s' in chunks, '%s' in two pieces", at, q.partial[at].c_str(), two.partial[at].c_str()); REQUIRE(SameScore(q.partial_score[at], two.partial_score[at]), "intermediate score at byte %zu is %.9g in chunks, %.9g in two pieces", at, q.partial_score[at], two.partial_score[at]); }
    all.push_back(q); if (cuts.size() > 1 && !one.hyp.empty()) c.nontrivial();
  }
  c.label(one.hyp.empty() ? "empty hypothesis" : "words");
}

// Long recordings: whole, in big pieces and in small ones
PROPERTY("C01", long_streams, 24, 400, 240) {
#if defined(__SANITIZE_ADDRESS__)
  const int most = 6000;
#else
  const int most = 26000;
#endif
  Model m; ref::ModelShape sh; sh.small = true; sh.lm_of_12 = 2; GenModel(c, &m, c.dir(), sh); m.Write(); Audio a; if (c.chance(1, 6)) GenAudio(c, &a, most, false, most / 4 * 3); else GenAudio(c, &a, c.flip() ? 3000 : 700, false); c.note(m.Describe()); c.note(pbt::strf("%zu samples of %d-bit %s", a.x.size(), a.bits, a.kind.c_str())); Stt r(m.config); REQUIRE(r.p, "ce_stt_init: %s", ce_stt_last_error());
  size_t n = a.bytes.size(), by = a.bits / 8; std::vector<size_t> whole, part; if (n) whole.push_back(n); Result one = Decode(r.p, a, whole); REQUIRE(one.samples == static_cast<long>(a.x.size()), "%ld samples read of %zu", one.samples, a.x.size());
  int style = c.upto(3); pbt::Rng g(c.seed()); for (size_t p = 0; p < n;) { size_t s = style == 0 ? g.range(20000, 400000) : style == 1 ? 320 * by : style == 2 ? g.range(1, 9000) : g.upto(9) ? g.range(1, 4000) : g.range(30000, 200000); p = std::min(n, p + s); part.push_back(p); }
  Result q = Decode(r.p, a, part); c.note(pbt::strf("%zu pieces", part.size())); Same(q, one, "in pieces against whole"); REQUIRE(q.samples == one.samples, "%ld samples read in pieces, %ld at once", q.samples, one.samples); if (!one.hyp.empty() && part.size() > 1) c.nontrivial(); c.label(one.hyp.empty() ? "empty hypothesis" : "words");
  // The result in the middle does not depend on the pieces before it
  if (part.size() > 1) { size_t k = c.upto(part.size() - 1), at = part[k]; std::vector<size_t> cut{at}; if (at < n) cut.push_back(n); Result two = Decode(r.p, a, cut); Same(two, one, "two pieces against one"); REQUIRE(two.partial[at] == q.partial[at], "intermediate hypothesis at byte %zu is '%s' in pieces, '%s' at once", at, q.partial[at].c_str(), two.partial[at].c_str()); REQUIRE(SameScore(q.partial_score[at], two.partial_score[at]), "intermediate score at byte %zu is %.9g in pieces, %.9g at once", at, q.partial_score[at], two.partial_score[at]); if (!two.partial[at].empty()) c.label("intermediate hypothesis"); }
}

// ---------------------------------------------------------------- C02
PROPERTY("C02", interleaved, 500, 8000) {
  int nm = c.range(1, 2); std::vector<Model> m(nm); std::vector<std::unique_ptr<Stt>> r; for (int i = 0; i < nm; ++i) { std::string d = c.dir() + "/m" + std::to_string(i); mkdir(d.c_str(), 0700); ref::ModelShape sh; sh.lm_of_12 = 2; GenModel(c, &m[i], d, sh); m[i].Write(); }
  for (auto &x : m) { r.emplace_back(new Stt(x.config)); REQUIRE(r.back()->p, "ce_stt_init: %s", ce_stt_last_error()); }
  int nu = c.chance(1, 12) ? c.range(5, 12) : c.range(2, 4); struct U { Audio a; int model; std::vector<size_t> cuts; size_t next = 0, pos = 0; std::unique_ptr<Utt> u; Result want, got; bool done = false; }; std::vector<U> us(nu); int words = 0;
  for (auto &u : us) { u.model = c.upto(nm - 1); GenAudio(c, &u.a, c.chance(1, 10) ? 150 : 30, false); u.cuts = Cuts(c, u.a.bytes.size(), u.a.bits); }
  // Alone, each on a recognizer of its own
  for (auto &u : us) { Stt alone(m[u.model].config); REQUIRE(alone.p, "ce_stt_init: %s", ce_stt_last_error()); u.want = Decode(alone.p, u.a, u.cuts); if (!u.want.hyp.empty()) ++words; }
  int alive = nu, used = 0;
  while (alive) {
    std::vector<int> todo; for (int i = 0; i < nu; ++i) if (!us[i].done) todo.push_back(i); U &u = us[todo[c.upto(todo.size() - 1)]];
    if (!u.u) { u.u.reset(new Utt(r[u.model]->p, u.a.Format())); REQUIRE(u.u->p, "ce_utt_init: %s", ce_stt_last_error()); ++used; if (c.chance(1, 4)) { Utt unused(r[u.model]->p, u.a.Format()); if (c.flip() && u.a.bytes.size()) Feed(unused.p, u.a.bytes, 0, u.a.bytes.size() / 2 + 1); } continue; }
    if (u.next < u.cuts.size()) { Feed(u.u->p, u.a.bytes, u.pos, u.cuts[u.next]); u.pos = u.cuts[u.next++]; REQUIRE(u.want.partial[u.pos] == u.u->p->hyp, "interleaved: intermediate hypothesis at byte %zu is '%s', alone '%s'", u.pos, u.u->p->hyp, u.want.partial[u.pos].c_str()); REQUIRE(SameScore(u.want.partial_score[u.pos], u.u->p->loglikelihood_per_frame), "interleaved: intermediate score at byte %zu is %.9g, alone %.9g", u.pos, u.u->p->loglikelihood_per_frame, u.want.partial_score[u.pos]); continue; }
    ce_stt_end_of_stream(u.u->p); u.got.hyp = u.u->p->hyp; u.got.score = u.u->p->loglikelihood_per_frame; Same(u.got, u.want, "interleaved against alone"); u.done = true; --alive; if (c.flip()) u.u.reset();
  }
  for (auto &u : us) if (u.u) { REQUIRE(u.want.hyp == u.u->p->hyp && SameScore(u.u->p->loglikelihood_per_frame, u.want.score), "the result of a finished utterance changed to '%s' from '%s'", u.u->p->hyp, u.want.hyp.c_str()); }
  c.note(m[0].Describe()); c.note(pbt::strf("%d recognizers, %d utterances, %d with words", nm, nu, words)); if (words > 1) c.nontrivial();
}

// Recognizers and utterances that are created and destroyed one after the other, at addresses that may be used again
PROPERTY("C02", come_and_go, 600, 8000) {
  int nm = c.range(2, 3); std::vector<Model> m(nm); for (int i = 0; i < nm; ++i) { std::string d = c.dir() + "/m" + std::to_string(i); mkdir(d.c_str(), 0700); ref::ModelShape sh; sh.small = c.flip(); sh.lm_of_12 = 9; GenModel(c, &m[i], d, sh); m[i].Write(); }
  int na = c.range(1, 3); std::vector<Audio> au(na); std::vector<std::vector<size_t>> cuts(na); for (int i = 0; i < na; ++i) { GenAudio(c, &au[i], 30, false); cuts[i] = Cuts(c, au[i].bytes.size(), au[i].bits); }
  std::map<std::pair<int, int>, Result> seen; std::vector<std::unique_ptr<Stt>> r(nm); int steps = c.range(4, 14), words = 0, again = 0; bool keep = c.flip(); std::string hist;
  for (int k = 0; k < steps; ++k) {
    int i = c.upto(nm - 1), j = c.upto(na - 1); if (!r[i] || c.flip()) { r[i].reset(); r[i].reset(new Stt(m[i].config)); REQUIRE(r[i]->p, "ce_stt_init: %s", ce_stt_last_error()); }
    if (c.chance(1, 6) && au[j].bytes.size()) { Utt left(r[i]->p, au[j].Format()); Feed(left.p, au[j].bytes, 0, au[j].bytes.size() / 2 + 1); }
    Result q = Decode(r[i]->p, au[j], cuts[j]); hist += pbt::strf(" m%d/a%d", i, j); auto it = seen.find({i, j});
    if (it == seen.end()) { seen[{i, j}] = q; if (!q.hyp.empty()) ++words; }
    else { ++again; std::string what = "decoded again after" + hist; Same(q, it->second, what.c_str()); REQUIRE(q.partial == it->second.partial, "%s: intermediate hypotheses differ", what.c_str()); }
    if (!keep || c.flip()) r[i].reset();
  }
  c.note(m[0].Describe()); c.note(hist); if (words && again) c.nontrivial();
}

PROPERTY("C02", threads, 60, 1500) {
  // "first": no recognizer is created before those of the threads, which may be the first ones of the process
  bool first = c.chance(1, 3); if (first) c.label("first recognizers in the threads");
  int nm = c.chance(1, 3) ? 2 : 1; std::vector<Model> m(nm); std::vector<std::unique_ptr<Stt>> r; for (int i = 0; i < nm; ++i) { std::string d = c.dir() + "/m" + std::to_string(i); mkdir(d.c_str(), 0700); ref::ModelShape sh; sh.lm_of_12 = 2; GenModel(c, &m[i], d, sh); m[i].Write(); }
  auto create = [&]() { for (auto &x : m) { r.emplace_back(new Stt(x.config)); REQUIRE(r.back()->p, "ce_stt_init: %s", ce_stt_last_error()); } }; if (!first) create();
  int nt = c.range(2, 4), rounds = c.range(1, 2); struct U { Audio a; int model; bool own; std::vector<size_t> cuts; Result want; std::vector<Result> got; std::string fail; }; std::vector<U> us(nt); int words = 0;
  for (auto &u : us) { u.model = c.upto(nm - 1); u.own = c.chance(1, 6) || first; GenAudio(c, &u.a, 30, false); u.cuts = Cuts(c, u.a.bytes.size(), u.a.bits); }
  bool before = c.flip() && !first; auto alone = [&]() { for (auto &u : us) { u.want = Decode(r[u.model]->p, u.a, u.cuts); if (!u.want.hyp.empty()) ++words; } }; if (before) alone();
  std::vector<std::thread> th; for (auto &u : us) th.emplace_back([&u, &r, &m, rounds]() { try { for (int i = 0; i < rounds; ++i) { if (u.own) { Stt own(m[u.model].config); REQUIRE(own.p, "ce_stt_init failed"); u.got.push_back(Decode(own.p, u.a, u.cuts)); } else u.got.push_back(Decode(r[u.model]->p, u.a, u.cuts)); } } catch (pbt::Failure &f) { u.fail = f.msg; } });
  for (auto &t : th) t.join(); if (first) create(); if (!before) alone();
  for (auto &u : us) { REQUIRE(u.fail.empty(), "in a thread: %s", u.fail.c_str()); for (auto &g : u.got) { Same(g, u.want, "concurrent against alone"); REQUIRE(g.partial == u.want.partial, "concurrent: intermediate hypotheses differ"); for (auto &kv : g.partial_score) REQUIRE(SameScore(kv.second, u.want.partial_score[kv.first]), "concurrent: intermediate scores differ at byte %zu", kv.first); } }
  c.note(m[0].Describe()); c.note(pbt::strf("%d threads, %d recognizers", nt, nm)); if (words > 1) c.nontrivial();
}

// ---------------------------------------------------------------- C07
static void AgainstPipeline(Case &c, bool lengthy) {
  Model m; ref::ModelShape sh; sh.lm_of_12 = 2; sh.large_of_40 = 1; if (lengthy) { sh.small = true; sh.sinks = false; } GenModel(c, &m, c.dir(), sh); m.Write(); Audio a; GenAudio(c, &a, lengthy ? 3000 : c.chance(1, 60) ? 500 : c.chance(1, 4) ? 90 : 30, true); c.note(m.Describe()); c.note(pbt::strf("%zu samples of %d-bit %s", a.x.size(), a.bits, a.kind.c_str()));
  Stt r(m.config); REQUIRE(r.p, "ce_stt_init: %s", ce_stt_last_error()); std::vector<size_t> cuts = c.chance(1, 4) ? Cuts(c, a.bytes.size(), a.bits) : std::vector<size_t>{a.bytes.size()};
  Utt u(r.p, a.Format()); REQUIRE(u.p, "ce_utt_init: %s", ce_stt_last_error()); size_t p = 0; struct Part { size_t first; std::string second; float score; }; std::vector<Part> part; for (size_t e : cuts) { REQUIRE(Feed(u.p, a.bytes, p, e) >= 0, "ce_stt_process: %s", ce_stt_last_error()); p = e; part.push_back(Part{e / (a.bits / 8), u.p->hyp, u.p->loglikelihood_per_frame}); }
  ce_stt_end_of_stream(u.p); std::string hyp = u.p->hyp; int frames = ref::NumFrames(a.x.size());
  std::unique_ptr<Judge> j; try { j.reset(new Judge(m, a, lengthy ? 5 : 2)); } catch (ref::Unstable &) { throw pbt::Discard(); }
  std::vector<int> w = j->Ids(hyp); double best = j->s.Cheapest(j->s.best[frames], true), bound = j->s.Cheapest(j->s.safe[frames], true);
  if (!std::isfinite(best)) REQUIRE(w.empty(), "result '%s' but no complete path", hyp.c_str());
  if (std::isfinite(best) && (std::isfinite(bound) || !w.empty())) {
    double tol = j->Tol(best), forced = j->s.Forced(w, frames, true); REQUIRE(std::isfinite(forced), "no path of %d frames outputs '%s'", frames, hyp.c_str()); c.label(best == bound ? "optimal path within the beam" : "optimal path may be pruned");
    if (std::isfinite(bound)) REQUIRE(forced <= bound + 2 * tol, "result '%s' costs %.8g, but a path within the beam costs %.8g (tolerance %.2g)", hyp.c_str(), forced, bound, 2 * tol);
    if (!w.empty()) { double got = static_cast<double>(u.p->loglikelihood_per_frame) * frames, t2 = tol + 1e-6 * fabs(got); if (w.size() > 1) c.nontrivial(); REQUIRE(got >= forced - t2, "score of '%s' is %.8g over %d frames, its cheapest path costs %.8g (tolerance %.2g)", hyp.c_str(), got, frames, forced, t2); if (std::isfinite(bound)) REQUIRE(got <= bound + t2, "score of '%s' is %.8g over %d frames, a path within the beam costs %.8g (tolerance %.2g)", hyp.c_str(), got, frames, bound, t2); c.label("scored"); }
  }
  // Intermediate results: those of the last decoded frame count that is a multiple of 20
  for (auto &q : part) {
    int f = ref::NumFrames(q.first), d = f < m.r ? 0 : (f - m.r) / m.chunk * m.chunk; d = d / 20 * 20; if (f == 0) d = 0;
    if (d == 0) { REQUIRE(q.second.empty(), "intermediate hypothesis '%s' after %zu samples, before 20 frames were decoded", q.second.c_str(), q.first); continue; }
    std::vector<int> pw = j->Ids(q.second); double pb = j->s.Cheapest(j->s.best[d], false), ps = j->s.Cheapest(j->s.safe[d], false), t = j->Tol(pb); if (!std::isfinite(ps)) continue; double fo = j->s.Forced(pw, d, false); c.label("intermediate result"); REQUIRE(fo <= ps + 2 * t, "intermediate hypothesis '%s' after %zu samples (%d frames) costs %.8g, a path within the beam costs %.8g", q.second.c_str(), q.first, d, fo, ps);
    if (!pw.empty()) { double got = static_cast<double>(q.score) * d, t2 = t + 1e-6 * fabs(got); REQUIRE(got >= fo - t2 && got <= ps + t2, "intermediate score of '%s' after %zu samples is %.8g over %d frames; its cheapest path costs %.8g, a path within the beam %.8g (tolerance %.2g)", q.second.c_str(), q.first, got, d, fo, ps, t2); c.label("intermediate score"); }
  }
  if (lengthy) c.label(hyp.empty() ? "long, no words" : frames > 1000 ? "more than 1000 frames" : "up to 1000 frames");
}
PROPERTY("C07", pipeline_reference, 2400, 40000) { AgainstPipeline(c, false); }
PROPERTY("C07", long_recordings, 72, 800, 240) { AgainstPipeline(c, true); }

// Recordings of minutes in which every frame has a word
PROPERTY("C07", marathon, 16, 120, 240) {
#if defined(__SANITIZE_ADDRESS__)
  const int most = 6000;
#else
  const int most = 52000;
#endif
  Model m; ref::ModelShape sh; sh.small = true; sh.lm_of_12 = 0; GenModel(c, &m, c.dir(), sh); pbt::Rng g(c.seed()); int n = c.range(1, 4); m.g = ref::CompleteGraph(&g, n, m.tids, c.pick(std::vector<int>{4, 16}));
  m.words = n * n; m.sym = {"<eps>"}; for (int i = 1; i <= m.words; ++i) m.sym.push_back("w" + std::to_string(i)); m.sym.push_back("<s>"); m.sym.push_back("</s>"); m.Write();
  Audio a; int least = c.pick(std::vector<int>{0, 1, 2, 3}) * (most / 4); GenAudio(c, &a, most, true, least); int frames = ref::NumFrames(a.x.size()); c.note(m.Describe()); c.note(pbt::strf("%d frames of %d-bit %s", frames, a.bits, a.kind.c_str()));
  Stt r(m.config); REQUIRE(r.p, "ce_stt_init: %s", ce_stt_last_error()); Utt u(r.p, a.Format()); REQUIRE(u.p, "ce_utt_init: %s", ce_stt_last_error()); std::vector<size_t> cuts; size_t n0 = a.bytes.size(), p = 0, k = c.range(1, 4); for (size_t i = 1; i <= k; ++i) cuts.push_back(i == k ? n0 : n0 / k * i);
  struct Part { int d; std::string hyp; float score; }; std::vector<Part> part; for (size_t e : cuts) { REQUIRE(Feed(u.p, a.bytes, p, e) >= 0, "ce_stt_process: %s", ce_stt_last_error()); p = e; int f = ref::NumFrames(e / (a.bits / 8)), d = f < m.r ? 0 : (f - m.r) / m.chunk * m.chunk; part.push_back(Part{d / 20 * 20, u.p->hyp, u.p->loglikelihood_per_frame}); }
  ce_stt_end_of_stream(u.p); part.push_back(Part{frames, u.p->hyp, u.p->loglikelihood_per_frame});
  std::unique_ptr<ref::Pipeline> pipe; try { pipe.reset(new ref::Pipeline(m, a.x)); } catch (ref::Unstable &) { throw pbt::Discard(); }
  ref::LongSearch s(m.g, m.d); std::map<std::string, int> id; for (size_t i = 0; i < m.sym.size(); ++i) id[m.sym[i]] = i; size_t at = 0; double err = 0; const double kEps = 1.0 / (1 << 23);
  for (int t = 0; t <= frames; ++t) {
    if (t) { s.Push(pipe->cost[t - 1]); err += pipe->frame_err[t - 1]; }
    for (; at < part.size() && part[at].d == t; ++at) {
      const Part &q = part[at]; bool end = at + 1 == part.size(); if (t == 0) { REQUIRE(q.hyp.empty(), "hypothesis of %zu bytes before a frame was decoded", q.hyp.size()); continue; }
      // Single precision sums of t terms, on top of the error of the terms
      double gap, best = s.Best(end, &gap), tol = 1.01 * err + 2.0 * t * kEps * (fabs(best) + 100) + 1e-4;
      std::vector<int> w; for (auto &x : ref::SplitWords(q.hyp)) { auto it = id.find(x); REQUIRE(it != id.end() && it->second > 0, "the hypothesis has the unknown word '%s'", x.c_str()); w.push_back(it->second); }
      REQUIRE(w.size() == static_cast<size_t>(t), "%zu words after %d frames in which every arc has a word", w.size(), t); double cost = s.Cost(w, end); REQUIRE(std::isfinite(cost), "the words after %d frames are not those of a path", t);
      double got = static_cast<double>(q.score) * t; REQUIRE(fabs(got - cost) <= 2 * tol + 1e-6 * fabs(got), "score %.8g over %d frames, but the words cost %.8g (tolerance %.2g)", got, t, cost, 2 * tol);
      // The beam may cut off the cheapest path, whatever is left is a path
      if (gap + 2 * tol <= 15.9) REQUIRE(cost <= best + 2 * tol, "the words after %d frames cost %.8g, the cheapest path costs %.8g (tolerance %.2g)", t, cost, best, 2 * tol); else c.label("cheapest path may be pruned");
      c.label(t > 32768 ? "more than 32768 words" : t > 16384 ? "more than 16384 words" : t > 4096 ? "more than 4096 words" : "up to 4096 words"); if (t > 20 && n > 1) c.nontrivial();
    }
  }
}

// ---------------------------------------------------------------- C20
PROPERTY("C20", model_loading, 3000, 40000) {
  Model m; ref::ModelShape sh; sh.small = true; sh.lm_of_12 = 5; GenModel(c, &m, c.dir(), sh); m.WriteFiles(); std::vector<std::string> files{"fst", "nnet", "prior", "tid2pdf", "symbol_table"}; if (m.with_lm) { files.push_back("large_lm"); files.push_back("original_lm"); }
  auto conf = m.conf; auto find = [&](const std::string &k) { for (auto &kv : conf) if (kv.first == k) return &kv; return static_cast<std::pair<std::string, std::string> *>(nullptr); }; auto path = [&](const std::string &k) { std::string v = find(k)->second; return v[0] == '/' ? v : m.dir + "/" + v; };
  int mode = c.weighted({2, 4, 3, 5, 3, 2, 1, 1}); std::string what = "intact", config = m.config; bool bad = mode != 0;
  switch (mode) {
    case 1: { std::vector<std::string> keys; for (auto &kv : conf) if (kv.first != "large_lm") keys.push_back(kv.first); std::string k = c.pick(keys); for (size_t i = 0; i < conf.size(); ++i) if (conf[i].first == k) { conf.erase(conf.begin() + i); break; } what = "no key " + k; break; }
    case 2: { std::string k = c.pick(files); find(k)->second = c.flip() ? "missing-file" : m.dir + "/none/x"; what = "missing file for " + k; break; }
    case 3: { std::vector<std::string> bin; for (auto &f : files) if (f != "symbol_table") bin.push_back(f); std::string k = c.pick(bin), b = gen::ReadAll(path(k)); size_t n = c.upto(b.size() - 1); if (c.chance(1, 6)) n = 0; if (c.chance(1, 4)) n = b.size() - 1 - c.upto(std::min<size_t>(b.size() - 1, 12)); b.resize(n); gen::WriteFile(path(k), b); what = pbt::strf("%s cut to %zu bytes", k.c_str(), n); break; }
    case 4: { std::vector<std::string> bin; for (auto &f : files) if (f != "symbol_table") bin.push_back(f); std::string k = c.pick(bin), b = gen::ReadAll(path(k)); int at = c.upto(k == "large_lm" ? 8 : 3); b[at] ^= 1 << c.upto(6); gen::WriteFile(path(k), b); what = k + " with a wrong signature"; break; }
    case 5: { std::string k = c.pick(std::vector<std::string>{"left_context", "right_context", "chunk_size", "num_pdfs"}); find(k)->second = c.pick(std::vector<std::string>{"x", "ten", "-", "one1", "99999999999999999999", ".5"}); what = k + " is not an integer"; break; }
    case 6: { std::string s = m.Symbols(); int k = c.upto(3); if (k == 0) s += "word\n"; else if (k == 1) s += "a b 7\n"; else if (k == 2) s += "word seven\n"; else { size_t q = s.find("<s> "); s.erase(q, s.find('\n', q) + 1 - q); } gen::WriteFile(path("symbol_table"), s); what = pbt::strf("malformed symbol table %d", k); break; }
    case 7: { if (c.flip()) { config = m.dir + "/no.conf"; what = "no configuration file"; } else { conf.push_back({"a=b", "c"}); what = "malformed configuration"; } break; }
  }
  std::string t; for (auto &kv : conf) t += kv.first + " = " + kv.second + "\n"; gen::WriteFile(m.config, t); c.note(what + (m.with_lm ? ", with language model" : "")); c.label(what.substr(0, what.find(" to ")));
  ce_stt_t *r = ce_stt_init(config.c_str());
  if (bad) { c.nontrivial(); if (r) { ce_stt_destroy(r); FAIL("ce_stt_init accepted a model: %s", what.c_str()); } REQUIRE(strlen(ce_stt_last_error()) > 0, "no error message for: %s", what.c_str()); return; }
  REQUIRE(r, "ce_stt_init of an intact model: %s", ce_stt_last_error()); ce_stt_destroy(r);
}

// ---------------------------------------------------------------- C31
namespace {
// A call that has to fail; `u` is a running utterance and has to be untouched
void BadCall(Case &c, ce_stt_t *r, ce_utt_t *u, const std::string &dir, std::string *done) {
  const char *what = ""; char byte[4] = {1, 2, 3, 4}; int kind = c.upto(9), v = 0; std::string junk;
  switch (kind) { case 3: v = -static_cast<int>(c.upto(5)); break; case 4: v = c.pick(std::vector<int>{0, 2, 3, -1}); break; case 5: v = c.pick(std::vector<int>{0, 8000, 44100, 15999, 16001, -16000}); break; case 6: v = c.pick(std::vector<int>{0, 1, 12, 24, 64, -16}); break; case 7: junk = gen::Str(c, "RIFWAVEfmt \x01\x10", 0, 60); break; }
  auto call = [&]() -> bool {
    switch (kind) {
      case 0: what = "process without utterance"; return ce_stt_process(nullptr, byte, 4) == CE_STT_FAILED;
      case 1: { what = "process with an empty utterance"; ce_utt_t z; z.internal = nullptr; z.hyp = nullptr; z.loglikelihood_per_frame = 0; return ce_stt_process(&z, byte, 4) == CE_STT_FAILED && z.hyp == nullptr; }
      case 2: what = "process without data"; return ce_stt_process(u, nullptr, 4) == CE_STT_FAILED;
      case 3: what = "process of no bytes"; return ce_stt_process(u, byte, v) == CE_STT_FAILED;
      case 4: case 5: case 6: { what = kind == 4 ? "unsupported number of channels" : kind == 5 ? "unsupported sample rate" : "unsupported sample size"; ce_wave_format_t f = {kind == 4 ? v : 1, kind == 5 ? v : 16000, kind == 6 ? v : 16}; ce_utt_t *x = ce_utt_init(r, &f); bool failed = x == nullptr; if (x) ce_utt_destroy(x); return failed; }
      case 7: { what = "no wave file"; gen::WriteFile(dir + "/junk.wav", junk); FILE *fp = fopen((dir + "/junk.wav").c_str(), "rb"); ce_wave_format_t f; bool failed = ce_read_pcm_header(fp, &f) == nullptr; fclose(fp); return failed; }
      case 8: { what = "no model"; ce_stt_t *x = ce_stt_init((dir + "/none.conf").c_str()); bool failed = x == nullptr; if (x) ce_stt_destroy(x); return failed; }
      default: what = "end of stream without utterance"; ce_stt_end_of_stream(nullptr); { ce_utt_t z; z.internal = nullptr; z.hyp = nullptr; z.loglikelihood_per_frame = 0; ce_stt_end_of_stream(&z); return z.hyp == nullptr; }
    }
  };
  bool failed = call();
  REQUIRE(failed, "a call that has to fail succeeded: %s", what); REQUIRE(strlen(ce_stt_last_error()) > 0, "no error message: %s", what); REQUIRE(strlen(ce_stt_last_error()) < 2048, "endless error message"); *done += std::string(what) + ", "; c.label(what);
  // The message is that of this failure, whatever failed before
  std::string first = ce_stt_last_error(); if (c.flip()) { if (kind > 1 && kind < 9) ce_stt_process(nullptr, byte, 4); else { ce_wave_format_t f = {1, 12345, 16}; ce_utt_t *x = ce_utt_init(r, &f); if (x) ce_utt_destroy(x); } REQUIRE(call(), "a call that has to fail succeeded: %s", what); REQUIRE(first == ce_stt_last_error(), "%s: the message is '%s', after another failure it is '%s'", what, first.c_str(), ce_stt_last_error()); }
}
}
PROPERTY("C31", failed_calls, 1200, 20000) {
  Model m; ref::ModelShape sh; sh.lm_of_12 = 1; GenModel(c, &m, c.dir(), sh); m.Write(); Audio a; GenAudio(c, &a, c.chance(1, 10) ? 150 : 40, false); Stt r(m.config); REQUIRE(r.p, "ce_stt_init: %s", ce_stt_last_error()); std::vector<size_t> cuts = Cuts(c, a.bytes.size(), a.bits); Result want = Decode(r.p, a, cuts); std::string done; int calls = 0;
  Utt u(r.p, a.Format()); REQUIRE(u.p, "ce_utt_init"); size_t p = 0;
  for (size_t i = 0; i <= cuts.size(); ++i) {
    if (calls < 12 && c.chance(1, 2)) { std::string h = u.p->hyp; float s = u.p->loglikelihood_per_frame; ++calls; BadCall(c, r.p, u.p, c.dir(), &done); REQUIRE(h == u.p->hyp && gen::SameBits(s, u.p->loglikelihood_per_frame), "a failed call changed the hypothesis from '%s' to '%s': %s", h.c_str(), u.p->hyp, done.c_str()); }
    if (i == cuts.size()) break;
    int n = Feed(u.p, a.bytes, p, cuts[i]); REQUIRE(n == static_cast<long>(cuts[i] / (a.bits / 8)) - static_cast<long>(p / (a.bits / 8)), "ce_stt_process returned %d after failed calls (%s)", n, done.c_str()); p = cuts[i]; REQUIRE(want.partial[p] == u.p->hyp, "after failed calls (%s) the hypothesis at byte %zu is '%s' instead of '%s'", done.c_str(), p, u.p->hyp, want.partial[p].c_str());
  }
  ce_stt_end_of_stream(u.p); Result got; got.hyp = u.p->hyp; got.score = u.p->loglikelihood_per_frame; Same(got, want, ("after failed calls: " + done).c_str()); c.note(done); if (calls) c.nontrivial();
}

// ---------------------------------------------------------------- C28
#if defined(__SANITIZE_ADDRESS__)
namespace {
int OpenFiles() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) ++n; closedir(d); return n; }
std::atomic<long> live_blocks{0};
void OnMalloc(const volatile void *, size_t) { ++live_blocks; }
void OnFree(const volatile void *p) { if (p) --live_blocks; }
struct Usage { long bytes, blocks; int files; };
Usage Measure() { static int on = __sanitizer_install_malloc_and_free_hooks(OnMalloc, OnFree); (void)on; Usage u; u.blocks = live_blocks; u.files = OpenFiles(); u.bytes = static_cast<long>(__sanitizer_get_current_allocated_bytes()); return u; }
}
PROPERTY("C28", resources_returned, 700, 10000) {
  Model m; ref::ModelShape sh; sh.small = c.flip(); sh.lm_of_12 = 4; GenModel(c, &m, c.dir(), sh); m.Write(); Audio a; GenAudio(c, &a, 30, false); std::vector<size_t> cuts = Cuts(c, a.bytes.size(), a.bits);
  // One life of a recognizer: drawn once, repeated three times
  bool damage = c.chance(1, 2); std::string conf = m.config, what = "decodes"; int utts = c.range(0, 2), abandon = c.upto(3), bad_format = c.upto(2), bad_header = c.upto(1); std::string wav; { gen::Put<int32_t>(&wav, 0x46464952); wav += gen::Str(c, "abWAVE", 0, 50); }
  if (damage) {
    std::vector<std::string> f{"HCLG.fst", "nnet", "prior", "tid2pdf"}; if (m.with_lm) { f.push_back("G.big"); f.push_back("G.small"); } std::string k = c.pick(f), b = gen::ReadAll(m.dir + "/" + k);
    switch (c.upto(3)) { case 0: unlink((m.dir + "/" + k).c_str()); what = k + " missing"; break; case 1: b[c.upto(3)] ^= 1; gen::WriteFile(m.dir + "/" + k, b); what = k + " has a wrong signature"; break; case 2: b.resize(c.upto(b.size() - 1)); gen::WriteFile(m.dir + "/" + k, b); what = pbt::strf("%s cut to %zu bytes", k.c_str(), b.size()); break; default: { std::string t, drop = c.pick(m.conf).first; if (drop == "large_lm") drop = "nnet"; for (auto &kv : m.conf) if (kv.first != drop) t += kv.first + "=" + kv.second + "\n"; gen::WriteFile(m.config, t); what = "no key " + drop; } }
  }
  auto life = [&]() {
    ce_stt_t *r = ce_stt_init(conf.c_str()); REQUIRE((r == nullptr) == damage, "ce_stt_init with %s", what.c_str()); if (!r) return;
    ce_wave_format_t f = a.Format(), g = {2, 16000, 16}, g2 = {1, 16000, 24};
    for (int i = 0; i < bad_format; ++i) { ce_utt_t *x = ce_utt_init(r, i ? &g2 : &g); if (x) ce_utt_destroy(x); }
    for (int i = 0; i < utts; ++i) { ce_utt_t *u = ce_utt_init(r, &f); size_t p = 0, k = 0; for (size_t e : cuts) { if (abandon == 1 && k++ > cuts.size() / 2) break; ce_stt_process(u, a.bytes.data() + p, e - p); p = e; } if (abandon != 2) ce_stt_end_of_stream(u); ce_stt_process(u, nullptr, 3); ce_utt_destroy(u); }
    ce_stt_destroy(r);
  };
  std::string wf = m.dir + "/x.wav"; gen::WriteFile(wf, wav); auto header = [&]() { FILE *fp = fopen(wf.c_str(), "rb"); ce_wave_format_t q; ce_read_pcm_header(fp, &q); fclose(fp); };
  life(); if (bad_header) header(); Usage u0 = Measure(); for (int i = 0; i < 3; ++i) { life(); if (bad_header) header(); } Usage u1 = Measure();
  c.note(m.Describe()); c.note(pbt::strf("%s, %d utterances%s", what.c_str(), utts, abandon == 1 ? ", abandoned" : abandon == 2 ? ", without end of stream" : "")); c.label(damage ? "failed initialization" : "decoded"); if (damage || utts) c.nontrivial();
  REQUIRE(u1.files == u0.files, "%d open files more after 3 repetitions (%s)", u1.files - u0.files, what.c_str());
  REQUIRE(u1.bytes <= u0.bytes && u1.blocks <= u0.blocks, "%ld bytes in %ld blocks more allocated after 3 repetitions (%s)", u1.bytes - u0.bytes, u1.blocks - u0.blocks, what.c_str());
}

// A long stream whose live word histories stay short: the memory may not follow the length of the stream
PROPERTY("C28", bounded_growth, 72, 800, 120) {
  int states = c.range(2, 5), pdfs = 3, words = 5; ref::Graph g; g.arcs.resize(states); g.final.assign(states, 0.0); pbt::Rng rg(c.seed()); double step = c.range(8, 20) / 8.0; bool lm = c.chance(1, 3);
  g.arcs[0].push_back(ref::GArc{1, 0, 0.0, 0}); for (int s = 0; s < states; ++s) { int k = c.range(1, 4); for (int i = 0; i < k; ++i) g.arcs[s].push_back(ref::GArc{c.range(1, 3), c.chance(3, 4) ? c.range(1, words) : 0, step + c.range(0, 8) / 8.0, static_cast<int>(c.upto(states - 1))}); if (s) g.arcs[s].push_back(ref::GArc{0, c.flip() ? 1 : 0, step, 0}); }
  // Without words the weights may be anything: hypotheses leave the beam after they were created
  bool wide = c.chance(2, 3), quiet = false; if (wide) { lm = false; for (auto &v : g.arcs) { for (auto &a : v) { a.ol = 0; a.w = c.range(0, 200) / 8.0; } int k = c.range(1, 4); for (int i = 0; i < k; ++i) v.push_back(ref::GArc{c.range(1, 3), 0, c.range(0, 200) / 8.0, static_cast<int>(c.upto(states - 1))}); } for (auto &v : g.arcs) std::stable_sort(v.begin(), v.end(), [](const ref::GArc &a, const ref::GArc &b) { return a.next < b.next; }); c.label("wide weights"); }
  // Every other frame the best hypothesis leads to many poor ones before a better one appears
  if (wide && c.flip()) {
    int k = c.range(4, 20); states = 3 + k; g = ref::Graph(); g.arcs.resize(states); g.final.assign(states, 0.0);
    auto arc = [&](int from, int to, double w) { g.arcs[from].push_back(ref::GArc{c.range(1, 3), 0, w, to}); };
    arc(0, 1, c.range(0, 8) / 8.0); arc(0, 2, c.range(12, 24) / 8.0); for (int i = 0; i < k; ++i) { arc(1, 3 + i, c.range(160, 220) / 8.0); arc(3 + i, 0, c.range(0, 100) / 8.0); } arc(2, 0, c.range(0, 4) / 8.0); c.label("fan"); quiet = true;
  }
  if (wide && !quiet && c.chance(1, 4)) { states = c.range(20, 40); g.arcs.resize(states); g.final.assign(states, 0.0); for (int s = 0; s < states; ++s) for (int i = 0; i < 3; ++i) g.arcs[s].push_back(ref::GArc{c.range(1, 3), 0, c.range(0, 60) / 8.0, static_cast<int>(c.upto(states - 1))}); c.label("many states"); }
  ref::Lm big; ref::DeltaLm d; std::unique_ptr<pocketkaldi::SymbolTable> sym; std::unique_ptr<pocketkaldi::LmFst> lf; std::unique_ptr<pocketkaldi::Vector<float>> small; std::unique_ptr<pocketkaldi::DeltaLmFst> delta;
  if (lm) { big.arcs.resize(3); big.final.assign(3, INFINITY); big.final[0] = 0; for (int w = 1; w <= words + 2; ++w) big.arcs[0][w] = ref::LmArc{w % 3, 1.0f}; big.arcs[1][0] = big.arcs[2][0] = ref::LmArc{0, 0.5f}; big.arcs[1][2] = ref::LmArc{2, 0.25f}; std::string t = "<eps> 0\n"; for (int i = 1; i <= words; ++i) t += "w" + std::to_string(i) + " " + std::to_string(i) + "\n"; t += "<s> 6\n</s> 7\n"; gen::WriteFile(c.dir() + "/w", t); gen::WriteFile(c.dir() + "/lm", big.Bytes()); sym.reset(new pocketkaldi::SymbolTable()); REQUIRE(sym->Read(c.dir() + "/w").ok(), "symbols"); lf.reset(new pocketkaldi::LmFst()); pocketkaldi::util::ReadableFile fd; REQUIRE(fd.Open(c.dir() + "/lm").ok() && lf->Read(&fd).ok(), "lm"); lf->InitBucket0(); small.reset(new pocketkaldi::Vector<float>(words + 3)); for (int i = 0; i < words + 3; ++i) (*small)(i) = 1.0f; delta.reset(new pocketkaldi::DeltaLmFst(small.get(), lf.get(), sym.get())); }
  auto f = g.Make(); pocketkaldi::Vector<int32_t> map(4); for (int i = 0; i < 4; ++i) map(i) = i ? i - 1 : 0; pocketkaldi::Decoder dec(f.get(), map, 0.125f, delta.get()); dec.Initialize(); pocketkaldi::Vector<float> fr(pdfs); int n1 = 1200, n2 = 6000; Usage at1 = Measure();
  for (int t = 0; t < n2; ++t) { int range = quiet ? 4 : 160; fr(0) = wide ? -static_cast<float>(rg.upto(range)) : 0; fr(1) = -static_cast<float>(rg.upto(wide ? range : 8)); fr(2) = -static_cast<float>(rg.upto(wide ? range : 20)); REQUIRE(dec.Process(fr), "Process() of frame %d failed", t); if (t + 1 == n1) at1 = Measure(); }
  Usage end = Measure(); long grown = end.bytes - at1.bytes, blocks = end.blocks - at1.blocks; c.note(pbt::strf("%d states, %d arcs%s, %ld bytes in %ld blocks more after %d frames than after %d", states, g.narcs(), lm ? ", language model" : "", grown, blocks, n2, n1)); c.nontrivial(); REQUIRE(grown < 120000 && blocks < 300, "%ld bytes in %ld blocks more allocated after %d frames than after %d", grown, blocks, n2, n1);
}

// The same for whole utterances: a stream of one utterance after another, and a long one
PROPERTY("C28", stream_growth, 40, 600, 120) {
  Model m; ref::ModelShape sh; sh.small = true; sh.lm_of_12 = 0; GenModel(c, &m, c.dir(), sh); for (auto &a : m.g.arcs) for (auto &x : a) x.ol = 0; m.Write(); Stt r(m.config); REQUIRE(r.p, "ce_stt_init: %s", ce_stt_last_error()); ce_wave_format_t f = {1, 16000, c.pick(std::vector<int>{8, 16, 32})}; Utt u(r.p, f); REQUIRE(u.p, "ce_utt_init"); pbt::Rng g(c.seed()); int by = f.bits_per_sample / 8, piece = c.range(500, 5000); std::string b(piece, '\0'); Usage at1 = Measure(); int n1 = 60, n2 = 300;
  for (int i = 0; i < n2; ++i) { for (auto &x : b) x = static_cast<char>(g.next()); ce_stt_process(u.p, b.data(), b.size()); if (i + 1 == n1) at1 = Measure(); }
  Usage end = Measure(); long grown = end.bytes - at1.bytes, blocks = end.blocks - at1.blocks; c.note(pbt::strf("%d pieces of %d bytes, %d-bit, %ld bytes in %ld blocks more than after %d", n2, piece, by * 8, grown, blocks, n1)); c.nontrivial(); REQUIRE(grown < 60000 && blocks < 40, "%ld bytes in %ld blocks more allocated after %d pieces than after %d", grown, blocks, n2, n1);
}
#endif
