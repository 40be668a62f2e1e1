// C35 models that contradict themselves or hold damaged numbers
#include <limits.h>
#include <sys/stat.h>
#include <memory>
#include <set>
#include "ce_stt.h"
#include "gen.h"
#include "ref_model.h"

using pbt::Case;
using ref::Model;
using ref::Audio;

namespace {
struct Stt { ce_stt_t *p = nullptr; explicit Stt(const std::string &conf) { p = ce_stt_init(conf.c_str()); } ~Stt() { if (p) ce_stt_destroy(p); } Stt(const Stt &) = delete; };
struct Utt { ce_utt_t *p = nullptr; Utt(ce_stt_t *r, const ce_wave_format_t &f) { p = ce_utt_init(r, &f); } ~Utt() { if (p) ce_utt_destroy(p); } Utt(const Utt &) = delete; };
std::string Conf(const Model &m) { std::string t; for (auto &kv : m.conf) t += kv.first + " = " + kv.second + "\n"; return t; }
void Set(Model *m, const std::string &k, const std::string &v) { for (auto &kv : m->conf) if (kv.first == k) { kv.second = v; return; } abort(); }
void Poke(std::string *s, size_t at, int32_t v) { if (at + 4 > s->size()) abort(); memcpy(&(*s)[at], &v, 4); }
int MostIl(const Model &m) { int k = 0; for (auto &a : m.g.arcs) for (auto &x : a) k = std::max(k, x.il); return k; }
int MostOl(const Model &m) { int k = 0; for (auto &a : m.g.arcs) for (auto &x : a) k = std::max(k, x.ol); return k; }

// Changes one part so that it contradicts the others; what is wrong, or nothing if the model has no place for it
std::string Contradict(Case &c, Model *m, int kind) {
  auto reach = [&](int type) { std::vector<int> v; for (size_t i = 0; i < m->net.size(); ++i) if (m->net[i].type == type) v.push_back(i); return v; };
  pbt::Rng g(c.seed()); std::string big = m->with_lm ? m->lm.Bytes() : ""; int S = m->lm.states(), A = 0; for (auto &a : m->lm.arcs) A += a.size(); size_t idx = 48 + 4 * S, arc = 48 + 8 * S;
  auto odd = [&](int n) { return c.pick(std::vector<int>{n, -1, n + 1, -2, INT_MAX, INT_MIN, n + 1000000}); };
  switch (kind) {
    case 0: { std::vector<int> v = reach(0); ref::RefLayer &l = m->net[v[c.upto(v.size() - 1)]]; bool in = c.flip(); int r = l.W.r + (in ? c.pick(std::vector<int>{1, -1, 40}) : 0), k = l.W.c + (in ? 0 : c.pick(std::vector<int>{1, -1, 7})); if (r < 1 || k < 1) return ""; l = ref::Linear(&g, r, k); m->WriteFiles(); return in ? "linear layer for another number of inputs" : "linear layer with another number of outputs"; }
    case 1: { std::vector<int> v = reach(0); ref::RefLayer &l = m->net[v[c.upto(v.size() - 1)]]; int k = l.b.size() + c.pick(std::vector<int>{1, -1, 9}); if (k < 1) return ""; l.b.resize(k, 0.5f); m->WriteFiles(); return "bias of another size"; }
    case 2: { std::vector<int> v = reach(7); ref::RefLayer &l = m->net[v[c.upto(v.size() - 1)]]; int k = l.scale.size() + c.pick(std::vector<int>{1, -1, 9}), w = c.upto(2); if (k < 1) return ""; if (w != 0) l.scale.resize(k, 0.5f); if (w != 1) l.offset.resize(k, 0.5f); m->WriteFiles(); return "batch normalization of another size"; }
    case 3: { int k = m->pdfs + c.pick(std::vector<int>{1, -1, 50}); if (k < 1) return ""; m->prior.resize(k, 0.1f); m->WriteFiles(); return "priors of another size"; }
    case 4: { Set(m, "num_pdfs", std::to_string(c.pick(std::vector<int>{m->pdfs + 1, m->pdfs - 1, 0, -1, INT_MAX}))); return "another number of pdfs in the configuration"; }
    case 5: { int dl = c.pick(std::vector<int>{1, -1, 5, 0}), dr = c.pick(std::vector<int>{1, 2, 0, -1}); if (dl + dr == 0 && m->l + dl >= 0 && m->r + dr >= 0) return ""; Set(m, "left_context", std::to_string(m->l + dl)); Set(m, "right_context", std::to_string(m->r + dr)); return "context of the configuration is not that of the network"; }
    case 6: { int k = c.pick(std::vector<int>{1, 1000000, INT_MAX}); bool left = c.flip(); Set(m, "left_context", std::to_string(left ? -k : m->l + m->r + k)); Set(m, "right_context", std::to_string(left ? m->l + m->r + std::min(k, INT_MAX - m->l - m->r) : -k)); return "negative context"; }
    case 7: Set(m, "chunk_size", std::to_string(c.pick(std::vector<int>{0, -1, -m->l - m->r - 1, INT_MIN}))); return "chunk size below 1";
    case 8: { int i = c.range(1, m->tids); m->tid2pdf[i] = odd(m->pdfs); m->WriteFiles(); return "transition to a pdf that does not exist"; }
    case 9: { int k = MostIl(*m); if (k < 1) return ""; m->tid2pdf.resize(c.range(1, k)); m->WriteFiles(); return "graph with transitions that do not exist"; }
    case 10: { int k = MostOl(*m); if (k < 3 || m->with_lm) return ""; std::string t = "<eps> 0\n<s> 1\n</s> 2\n"; int n = c.range(3, k); for (int i = 3; i < n; ++i) t += "u" + std::to_string(i) + " " + std::to_string(i) + "\n"; gen::WriteFile(m->dir + "/words.txt", t); return "graph with words that do not exist"; }
    case 11: { if (!A) return ""; int s = odd(S); Poke(&big, arc + 16 * c.upto(A - 1), s); gen::WriteFile(m->dir + "/G.big", big); return pbt::strf("language model arc to state %d of %d", s, S); }
    case 12: { int s = odd(S); Poke(&big, 44, s); gen::WriteFile(m->dir + "/G.big", big); return pbt::strf("language model starts in state %d of %d", s, S); }
    case 13: { int s = c.upto(S - 1), v = c.pick(std::vector<int>{A + 1, -2, INT_MAX, INT_MIN, A + 100}); Poke(&big, idx + 4 * s, v); gen::WriteFile(m->dir + "/G.big", big); return pbt::strf("arcs of language model state %d begin at %d of %d", s, v, A); }
    case 14: { if (!A) return ""; int i = c.upto(A - 1), v = c.pick(std::vector<int>{-1, INT_MIN, m->words + 1, INT_MAX, 1 << 20}); Poke(&big, arc + 16 * i + 4, v); gen::WriteFile(m->dir + "/G.big", big); return pbt::strf("language model with word %d of %d", v, m->words); }
    case 15: { int s = c.upto(S - 1), t = s; std::set<int> seen; int end; for (;;) { seen.insert(t); end = t; auto it = m->lm.arcs[t].find(0); if (it == m->lm.arcs[t].end()) break; t = it->second.next; if (seen.count(t)) return ""; } auto it = seen.begin(); std::advance(it, c.upto(seen.size() - 1)); m->lm.arcs[end][0] = ref::LmArc{*it, 0.5f}; m->WriteFiles(); return pbt::strf("back-off in circles from state %d to %d", end, *it); }
    case 16: { int most = 0; for (auto &a : m->lm.arcs) for (auto &kv : a) most = std::max(most, kv.first); if (most < 1) return ""; m->d.small.resize(c.range(1, most)); m->WriteFiles(); return "unigram costs end before the words of the language model"; }
    case 17: { std::string b = gen::ReadAll(m->dir + "/nnet"); std::vector<size_t> v; for (size_t p = b.find("VEC0"); p != std::string::npos; p = b.find("VEC0", p + 4)) v.push_back(p); size_t p = v[c.upto(v.size() - 1)]; int32_t n, k = c.pick(std::vector<int>{1, -1, 17, -17}); memcpy(&n, &b[p + 8], 4); if (n + k < 1) return ""; if (k > 0) b.insert(p + 12 + 4 * n, std::string(4 * k, '\0')); else b.erase(p + 12 + 4 * (n + k), -4 * k); Poke(&b, p + 8, n + k); Poke(&b, p + 4, 4 * (n + k) + 4); gen::WriteFile(m->dir + "/nnet", b); return pbt::strf("vector at %zu of the network has %d values instead of %d", p, n + k, n); }
    case 18: { std::string t = gen::ReadAll(m->dir + "/words.txt"), w = c.flip() ? "<s>" : "</s>"; size_t p = ("\n" + t).find("\n" + w + " "); if (p == std::string::npos) abort(); size_t e = t.find('\n', p), q = p + w.size() + 1; t.replace(q, e - q, "0"); gen::WriteFile(m->dir + "/words.txt", t); return "id of " + w + " is that of epsilon"; }
    default: m->net[0].scale.assign(m->net[0].scale.size() + c.pick(std::vector<int>{1, -1, 3}), 0.3f); m->net[0].offset = std::vector<float>(m->net[0].scale.size(), 0.0f); for (size_t i = 1; i < m->net.size(); ++i) if (m->net[i].type == 6) continue; else if (m->net[i].type == 0) { ref::RefLayer &l = m->net[i]; int dim = m->net[0].scale.size(); for (size_t j = 1; j < i; ++j) if (m->net[j].type == 6) dim *= m->net[j].idx.size(); l = ref::Linear(&g, dim, l.W.c); break; } m->WriteFiles(); return "network for features of another size";
  }
}
// Other numbers in one of the files
std::string Scramble(Case &c, Model *m) {
  std::vector<std::string> f{"nnet", "prior", "tid2pdf"}; if (m->with_lm) { f.push_back("G.big"); f.push_back("G.big"); f.push_back("G.small"); } std::string n = c.pick(f), b = gen::ReadAll(m->dir + "/" + n), d; int k = c.range(1, 4);
  for (int i = 0; i < k; ++i) {
    size_t at = c.chance(1, 4) ? c.upto(std::min<size_t>(b.size() - 1, 80)) : c.upto(b.size() - 1);
    if (c.chance(1, 4)) { b[at] ^= 1 << c.upto(7); d += pbt::strf(" bit in byte %zu", at); continue; }
    at = at / 4 * 4; if (at + 4 > b.size()) continue; static const std::vector<int32_t> odd{0, 1, -1, 2, 3, 5, 8, 40, -2, INT_MAX, INT_MIN, 1 << 30, 0x7f800000, static_cast<int32_t>(0xff800000u), 0x7fc00000, 0x7f000000, 100000}; int32_t v = c.pick(odd); if (c.chance(1, 3)) { int32_t o; memcpy(&o, &b[at], 4); v = static_cast<int32_t>(static_cast<uint32_t>(o) + static_cast<uint32_t>(c.pick(std::vector<int>{1, -1, 2, -2}))); } Poke(&b, at, v); d += pbt::strf(" %d at %zu", v, at);
  }
  gen::WriteFile(m->dir + "/" + n, b); return n + ":" + d;
}
// A file of another model in place of its own
std::string Mix(Case &c, Model *m) {
  Model o; ref::ModelShape sh; sh.lm_of_12 = m->with_lm ? 12 : 0; sh.small = c.flip(); std::string dir = m->dir + "/other"; mkdir(dir.c_str(), 0700); GenModel(c, &o, dir, sh); if (c.chance(1, 2)) { o.pdfs = m->pdfs; } o.WriteFiles(); std::vector<std::string> f{"HCLG.fst", "nnet", "prior", "tid2pdf", "words.txt"}; if (m->with_lm && o.with_lm) { f.push_back("G.big"); f.push_back("G.small"); } std::string d; for (auto &n : f) if (c.chance(1, 3)) { gen::WriteFile(m->dir + "/" + n, gen::ReadAll(dir + "/" + n)); d += " " + n; } return "other" + d;
}
}

PROPERTY("C35", contradicting_parts, 4000, 60000) {
  int kind = c.upto(19); bool lm = (kind >= 11 && kind <= 16) || kind == 18; Model m; ref::ModelShape sh; sh.lm_of_12 = lm ? 12 : 3; sh.small = c.flip(); GenModel(c, &m, c.dir(), sh); m.WriteFiles(); gen::WriteFile(m.config, Conf(m));
  { Stt r(m.config); REQUIRE(r.p, "ce_stt_init of an intact model: %s", ce_stt_last_error()); }
  std::string what = Contradict(c, &m, kind); if (what.empty()) throw pbt::Discard(); gen::WriteFile(m.config, Conf(m)); c.note(m.Describe()); c.note(what); c.label(pbt::strf("kind%02d", kind)); c.nontrivial();
  Stt r(m.config); REQUIRE(!r.p, "ce_stt_init accepted a model: %s", what.c_str()); REQUIRE(strlen(ce_stt_last_error()) > 0, "no error message: %s", what.c_str());
}
PROPERTY("C35", damaged_numbers, 4000, 80000) {
  Model m; ref::ModelShape sh; sh.lm_of_12 = 6; sh.small = c.flip(); GenModel(c, &m, c.dir(), sh); m.WriteFiles(); gen::WriteFile(m.config, Conf(m)); bool mix = c.chance(1, 4); std::string what = mix ? Mix(c, &m) : Scramble(c, &m); c.note(m.Describe()); c.note(what);
  Stt r(m.config); if (!r.p) { REQUIRE(strlen(ce_stt_last_error()) > 0, "no error message: %s", what.c_str()); c.label("refused"); return; }
  c.nontrivial(); c.label(mix ? "mixed, accepted" : "damaged, accepted"); Audio a; GenAudio(c, &a, 45, false); Utt u(r.p, a.Format()); REQUIRE(u.p, "ce_utt_init: %s", ce_stt_last_error()); size_t p = 0, by = a.bits / 8; pbt::Rng g(c.seed());
  std::set<std::string> known; { std::string t = gen::ReadAll(m.dir + "/words.txt"); size_t q = 0; while (q < t.size()) { size_t e = t.find('\n', q); std::string l = t.substr(q, e - q); known.insert(l.substr(0, l.find(' '))); q = e + 1; } }
  auto check = [&]() { for (auto &w : ref::SplitWords(u.p->hyp)) REQUIRE(known.count(w), "the hypothesis '%s' has a word that is not in the table: '%s'", u.p->hyp, w.c_str()); };
  while (p < a.bytes.size()) { size_t n = std::min(a.bytes.size() - p, by * static_cast<size_t>(g.range(400, 6000))); REQUIRE(ce_stt_process(u.p, &a.bytes[p], n) == static_cast<int>(n / by), "ce_stt_process: %s", ce_stt_last_error()); p += n; check(); }
  ce_stt_end_of_stream(u.p); check(); if (*u.p->hyp) c.label("with a result");
}
