// C27 the command line program against the library
#include <errno.h>
#include <stdlib.h>
#include <sys/stat.h>
#include "ce_stt.h"
#include "gen.h"
#include "ref_model.h"
#include "run.h"

using pbt::Case;
using ref::Audio;
using ref::Model;

namespace {
std::string Cli() { const char *p = getenv("PBT_CLI"); if (!p) { fprintf(stderr, "PBT_CLI is not set\n"); abort(); } return p; }
std::string Wav(const Audio &a, const std::string &tag = "data") {
  std::string h = "RIFF"; int by = a.bits / 8; gen::Put<int32_t>(&h, 36 + a.bytes.size()); h += "WAVEfmt "; gen::Put<int32_t>(&h, 16); gen::Put<int16_t>(&h, 1); gen::Put<int16_t>(&h, 1); gen::Put<int32_t>(&h, 16000); gen::Put<int32_t>(&h, 16000 * by); gen::Put<int16_t>(&h, by); gen::Put<int16_t>(&h, a.bits);
  h += tag; gen::Put<int32_t>(&h, a.bytes.size()); return h + a.bytes;
}
std::string Hyp(ce_stt_t *r, const Audio &a) {
  ce_wave_format_t f = a.Format(); ce_utt_t *u = ce_utt_init(r, &f); REQUIRE(u, "ce_utt_init: %s", ce_stt_last_error()); if (!a.bytes.empty()) ce_stt_process(u, a.bytes.data(), a.bytes.size()); ce_stt_end_of_stream(u); std::string h = u->hyp; ce_utt_destroy(u); return h;
}
bool Starts(const std::string &s, const std::string &p) { return s.compare(0, p.size(), p) == 0; }
}

PROPERTY("C27", command_line, 800, 12000) {
  Model m; ref::ModelShape sh; sh.lm_of_12 = 0; GenModel(c, &m, c.dir(), sh); m.Write(); ce_stt_t *r = ce_stt_init(m.config.c_str()); REQUIRE(r, "ce_stt_init: %s", ce_stt_last_error());
  int n = c.chance(1, 12) ? 0 : c.range(1, 4); std::vector<Audio> a(n); std::vector<std::string> hyp, file; int words = 0;
  bool same_base = c.chance(1, 3);
  for (int i = 0; i < n; ++i) {
    GenAudio(c, &a[i], 30, false); if (c.chance(1, 3)) { size_t by = a[i].bits / 8, k = (a[i].bytes.size() / 1024 * 1024 + (c.flip() ? 0 : c.range(-1, 1) * static_cast<int>(by))) / by * by; if (k <= a[i].bytes.size()) { a[i].bytes.resize(k); a[i].x.resize(k / by); c.label("whole buffers"); } }
    std::string sub = c.dir(); if (same_base) { sub += "/d" + std::to_string(i); mkdir(sub.c_str(), 0700); } file.push_back(sub + "/u" + (same_base ? "" : std::to_string(i)) + (c.chance(1, 5) ? ".WAVE" : c.chance(1, 5) ? ".scp.wav" : ".wav")); gen::WriteFile(file[i], Wav(a[i])); hyp.push_back(Hyp(r, a[i])); words += !hyp[i].empty();
  }
  std::string out = c.dir() + "/out", input, config = m.config, want, kind; int code = 0; bool exact = true; std::vector<std::string> argv;
  int mode = c.weighted({6, 4, 2, 2, 1, 1, 1, 1, 1}), nofile = 0;
  if (n == 0 && (mode == 1 || mode == 3)) mode = 0;
  // A list with more entries than the program may have open files
  if (n && mode == 0 && c.chance(1, 5)) { nofile = 20; int k = c.range(20, 40); for (int i = n; i < k; ++i) { file.push_back(file[i % n]); hyp.push_back(hyp[i % n]); } n = k; c.label("more entries than open files"); }
  else if (n > 1 && mode == 0 && c.chance(1, 3)) { int k = c.range(1, 4); for (int i = 0; i < k; ++i) { int j = c.upto(n - 1), at = c.upto(file.size()); std::string f = file[j], h = hyp[j]; file.insert(file.begin() + at, f); hyp.insert(hyp.begin() + at, h); } n += k; c.label("repeated files"); }
  std::string scp; std::vector<std::string> names; for (int i = 0; i < n; ++i) { names.push_back((c.chance(1, 40) ? std::string(c.pick(std::vector<int>{60, 255, 1000}), 'n') : "") + gen::Str(c, "abX-_9%sdn", 1, 8) + std::to_string(i)); scp += names[i] + " " + file[i] + (i + 1 < n || !c.chance(1, 3) ? "\n" : ""); } std::string sf = c.dir() + "/" + c.pick(std::vector<std::string>{"list.scp", "list.txt", "list", "l.sc", "a.wav.scp", "x.wavs", "d.wav/list", "wav.list", "list.wav.txt", ".wav.", "LIST.WAV"}); if (sf.find("d.wav/") != std::string::npos) mkdir((c.dir() + "/d.wav").c_str(), 0700);
  input = sf; for (int i = 0; i < n; ++i) want += names[i] + " " + hyp[i] + "\n"; kind = "list";
  auto cut = [&](int k) { want.clear(); for (int i = 0; i < k; ++i) want += names[i] + " " + hyp[i] + "\n"; exact = false; };
  switch (mode) {
    case 0: break;
    case 1: kind = "one file"; for (int i = 0; i < n; ++i) if (file[i].substr(file[i].size() - 4) == ".wav") { input = file[i]; want = hyp[i] + "\n"; } if (input == sf) kind = "list"; break;
    case 2: { kind = "malformed list line"; int at = c.range(0, n); scp.clear(); for (int i = 0; i <= n; ++i) { if (i == at) { std::string f = n ? file[c.upto(n - 1)] : "b"; scp += c.pick(std::vector<std::string>{"one-field\n", "\n", "a b c\n", "x y z w\n", f + "\n", "a " + f + " c\n", "a " + f + " " + f + "\n"}); } if (i < n) scp += names[i] + " " + file[i] + "\n"; } cut(at); want += "scp: unexpected line: "; code = 22; break; }
    case 3: { kind = "missing or invalid audio file"; int at = c.upto(n - 1); if (c.flip()) unlink(file[at].c_str()); else { std::string b = gen::ReadAll(file[at]); if (c.flip()) b.resize(c.upto(43)); else b[c.upto(3)] ^= 1; gen::WriteFile(file[at], b); } cut(at); want += "error: "; code = 22; break; }
    case 4: kind = "missing model"; config = c.dir() + "/none.conf"; want = "error: "; exact = false; code = 22; break;
    case 5: kind = "damaged model"; { std::string b = gen::ReadAll(m.dir + "/nnet"); b.resize(b.size() - 1); gen::WriteFile(m.dir + "/nnet", b); } want = "error: "; exact = false; code = 22; break;
    case 6: kind = "missing list"; input = c.dir() + "/none.scp"; want = "pasco: "; exact = false; code = 1; break;
    case 7: { kind = "unsupported format"; Audio q; q.bits = 24; q.bytes = "abcdef"; gen::WriteFile(c.dir() + "/q.wav", Wav(q)); input = c.dir() + "/q.wav"; want = "error: "; exact = false; code = 22; break; }
    case 8: kind = "usage"; want = "Usage: "; exact = false; code = 1; break;
  }
  // Relative names, from the directory of the model
  std::string cwd; if (c.chance(1, 4)) { cwd = c.dir(); auto rel = [&](std::string t) { for (size_t at; (at = t.find(cwd + "/")) != std::string::npos;) t.erase(at, cwd.size() + 1); return t; }; scp = rel(scp); input = rel(input); config = rel(config); c.label("relative names"); }
  gen::WriteFile(sf, scp); argv = {Cli(), config, input}; if (mode == 8) switch (c.upto(2)) { case 0: argv.pop_back(); break; case 1: argv.push_back("more"); break; default: argv[2] = "x"; }
  gen::Ran ran = gen::RunProgram(argv, "", out, "/dev/null", nofile, cwd); std::string got = gen::ReadAll(out); ce_stt_destroy(r);
  if (mode == 8 || c.chance(1, 12)) { gen::Ran full = gen::RunProgram(argv, "", "/dev/full", "/dev/null", nofile, cwd); c.label("full output device"); REQUIRE(full.exited, "%s, output that cannot be written: the program was ended by signal %d", kind.c_str(), full.signal); REQUIRE(full.code != 0 || want.empty(), "%s: exit status 0, but the output could not be written", kind.c_str()); }
  c.note(kind + pbt::strf(", %d files, %d with words", n, words)); c.label(kind); if (words || code) c.nontrivial();
  REQUIRE(ran.exited, "%s: the program was ended by signal %d; output '%s'", kind.c_str(), ran.signal, gen::Esc(got).c_str());
  REQUIRE((ran.code == 0) == (code == 0), "%s: exit status %d, expected %d; output '%s'", kind.c_str(), ran.code, code, gen::Esc(got).c_str());
  if (exact) REQUIRE(got == want, "%s: output '%s', expected '%s'", kind.c_str(), gen::Esc(got, 400).c_str(), gen::Esc(want, 400).c_str());
  else { std::string head = want.substr(0, want.rfind('\n') == std::string::npos ? 0 : want.rfind('\n') + 1); REQUIRE(Starts(got, head), "%s: output '%s' does not start with the results of the files before: '%s'", kind.c_str(), gen::Esc(got, 400).c_str(), gen::Esc(head, 400).c_str()); REQUIRE(got.size() > head.size() && std::count(got.begin(), got.end(), '\n') >= 1, "%s: no message in the output '%s'", kind.c_str(), gen::Esc(got, 400).c_str()); std::string rest = got.substr(head.size()); for (int i = 0; i < n; ++i) REQUIRE(names[i] + " " != rest.substr(0, names[i].size() + 1), "%s: a result follows the failure: '%s'", kind.c_str(), gen::Esc(rest, 200).c_str()); }
}
