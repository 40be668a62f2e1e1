// C32 recipe scripts, C33 damaged input of the conversion tools
#include <errno.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <memory>
#include <set>
#include "fst.h"
#include "gen.h"
#include "run.h"
#include "symbol_table.h"
#include "util.h"
#include "vector.h"

using namespace pocketkaldi;
using pbt::Case;

namespace {
std::string Env(const char *name) { const char *p = getenv(name); if (!p) { fprintf(stderr, "%s is not set\n", name); abort(); } return p; }
std::string Tool(const char *name) { return Env("PBT_TOOLS") + "/" + name; }
std::string Num(double v) { char b[64]; snprintf(b, sizeof b, "%.7g", v); return b; }
bool Exists(const std::string &p) { struct stat s; return lstat(p.c_str(), &s) == 0; }
void Mkdirs(const std::string &p) { for (size_t i = 1; i <= p.size(); ++i) if (i == p.size() || p[i] == '/') mkdir(p.substr(0, i).c_str(), 0700); }
void Script(const std::string &path, const std::string &body) { gen::WriteFile(path, "#!/bin/bash\n" + body); chmod(path.c_str(), 0700); }
// Programs found in PATH while a script runs: the interpreter of the tools under both names
std::string Bin(Case &c) { std::string b = c.dir() + "/bin"; Mkdirs(b); for (const char *n : {"python", "python3"}) Script(b + "/" + n, "exec " + Env("PBT_PYTHON") + " -B \"$@\"\n"); return b; }
std::string Name(Case &c) { return c.pick(std::vector<std::string>{"hyp", "hyp.txt", "a b.txt", "\xe4\xb8\xad.txt", "x'y", "t$HOME", "q;r", "[a]*", "-n"}); }
struct Text { std::string in, chars; };
Text GenText(pbt::Rng *g, const std::string &tag) {
  static const char *parts[] = {"a", "b", "7", "\xc3\xa9", "\xe4\xb8\xad", "\xe6\x96\x87", "-"}; Text t; int n = g->range(1, 6);
  for (int i = 0; i < n; ++i) { std::string id = tag + std::to_string(i); t.in += id; t.chars += id; int k = g->range(0, 5); for (int q = 0; q < k; ++q) { t.in += ' '; if (g->upto(5) == 0) { const char *w = g->upto(1) ? "<unk>" : "[noise]"; t.in += w; t.chars += std::string(" ") + w; continue; } int m = g->range(1, 4); for (int r = 0; r < m; ++r) { const char *p = parts[g->upto(6)]; t.in += p; t.chars += std::string(" ") + p; } } t.in += "\n"; t.chars += "\n"; }
  return t;
}
}

PROPERTY("C32", character_error_rate, 160, 3000) {
  pbt::Rng g(c.seed()); std::string d = c.dir(), bin = Bin(c), tmp = d + "/tmp"; Mkdirs(tmp); Mkdirs(d + "/rec");
  // The directory the script runs in, and where the files are
  std::string cwd = d + c.pick(std::vector<std::string>{"", "/w", "/w o r k"}); Mkdirs(cwd); std::string sub = c.pick(std::vector<std::string>{"", "", "exp/", "exp/a b/c/", "./"}); if (!sub.empty()) Mkdirs(cwd + "/" + sub);
  std::string base = Name(c), hyp = sub + base, ref = c.flip() ? "ref.txt" : sub + "ref of.txt"; if (sub.empty() && base[0] == '-') hyp = "./" + hyp; Text t = GenText(&g, "u"), t2 = GenText(&g, "v"); std::string rt = GenText(&g, "u").chars; gen::WriteFile(cwd + "/" + hyp, t.in); gen::WriteFile(cwd + "/" + ref, rt);
  if (c.flip()) hyp = cwd + "/" + hyp; if (c.flip()) ref = cwd + "/" + ref;
  int mode = c.weighted({5, 2, 1, 2}), code = mode == 1 ? c.range(1, 40) : 0; std::string result = "%WER " + std::to_string(c.range(0, 9999)) + " [ 1 / 2 ]\n";
  // compute-wer notes what it was asked to compare; mode 3: another run with a hypothesis of the same name happens meanwhile
  std::string other = d + "/other/" + (base[0] == '-' ? "x" : sub); Mkdirs(other); gen::WriteFile(other + "/" + base, t2.in); std::string script = Tool("compute-cer.sh");
  Script(bin + "/compute-wer", "D='" + d + "'\nR=$D/rec/${INNER:-outer}\nmkdir -p \"$R\"\nif [ -z \"$INNER\" -a -e \"$D/nest\" ]; then ( cd \"$D/other\" && INNER=inner bash \"$D/nest\" ) > \"$D/rec/nested\" 2>&1; fi\necho x >> \"$R/calls\"\nn=0\nfor a in \"$@\"; do case \"$a\" in ark:*) n=$((n+1)); cat -- \"${a#ark:}\" > \"$R/file$n\";; *) echo \"$a\" >> \"$R/options\";; esac; done\n[ -n \"$INNER\" ] || printf '%s\\n' '" + result.substr(0, result.size() - 1) + "'\nexit " + std::to_string(code) + "\n");
  if (mode == 3) gen::WriteFile(d + "/nest", "exec bash '" + script + "' '" + cwd + "'/" + (ref[0] == '/' ? "../../../../../../../.." : "") + "\"$(cat '" + d + "/refname')\" \"$(cat '" + d + "/hyp2')\"\n"); gen::WriteFile(d + "/refname", ref); gen::WriteFile(d + "/hyp2", other + "/" + base);
  if (mode == 2) unlink((hyp[0] == '/' ? hyp : cwd + "/" + hyp).c_str());
  const char *kinds[] = {"score", "compute-wer fails", "no hypothesis", "two runs at a time"}; c.note(pbt::strf("%s: '%s' in '%s'", kinds[mode], gen::Esc(hyp).c_str(), gen::Esc(cwd.substr(d.size())).c_str())); c.label(kinds[mode]); c.nontrivial();
  gen::Ran r = gen::RunProgram({"env", "PATH=" + bin + ":" + Env("PATH"), "TMPDIR=" + tmp, "bash", script, ref, hyp}, "", d + "/stdout", d + "/stderr", 0, cwd); std::string err = gen::Esc(gen::ReadAll(d + "/stderr"), 300), rec = d + "/rec/outer/";
  REQUIRE(r.exited, "the script was ended by signal %d", r.signal);
  if (mode == 2) { REQUIRE(r.code != 0, "exit status 0 without a hypothesis"); REQUIRE(!Exists(rec + "calls"), "a hypothesis that cannot be read is scored"); return; }
  REQUIRE((r.code == 0) == (code == 0), "exit status %d, but compute-wer ended with %d: %s", r.code, code, err.c_str());
  REQUIRE(Exists(rec + "calls"), "compute-wer was not run: %s", err.c_str()); REQUIRE(gen::ReadAll(d + "/stdout") == result, "output '%s', compute-wer printed '%s'", gen::Esc(gen::ReadAll(d + "/stdout")).c_str(), gen::Esc(result).c_str());
  std::string a = gen::ReadAll(rec + "file1"), b = gen::ReadAll(rec + "file2"), opt = gen::ReadAll(rec + "options"); REQUIRE(a == rt, "compute-wer got the reference '%s', expected '%s'", gen::Esc(a).c_str(), gen::Esc(rt).c_str()); REQUIRE(b == t.chars, "compute-wer got the hypothesis '%s', expected '%s'", gen::Esc(b).c_str(), gen::Esc(t.chars).c_str());
  REQUIRE(opt.find("--text") != std::string::npos && opt.find("--mode=present") != std::string::npos, "compute-wer got the options '%s'", gen::Esc(opt).c_str());
  if (mode == 3) { std::string e2 = gen::Esc(gen::ReadAll(d + "/rec/nested"), 300); REQUIRE(Exists(d + "/rec/inner/file2"), "the second run did not get to compute-wer: %s", e2.c_str()); b = gen::ReadAll(d + "/rec/inner/file2"); REQUIRE(b == t2.chars, "compute-wer of the second run got the hypothesis '%s', expected '%s'", gen::Esc(b).c_str(), gen::Esc(t2.chars).c_str()); }
  REQUIRE(gen::ReadAll(hyp[0] == '/' ? hyp : cwd + "/" + hyp) == t.in, "the hypothesis was changed");
}

PROPERTY("C32", decoding_graph_recipe, 60, 1200) {
  pbt::Rng g(c.seed()); std::string d = c.dir(), bin = Bin(c), w = d + c.pick(std::vector<std::string>{"/s5", "/my recipe"}), rec = d + "/rec", root = d + c.pick(std::vector<std::string>{"/root", "/pocket kaldi"}); Mkdirs(rec); Mkdirs(w + "/utils"); Mkdirs(w + "/data/lang"); Mkdirs(w + "/data/lang_test/phones"); Mkdirs(w + "/data/local/dict"); Mkdirs(w + "/exp/tri5a"); Mkdirs(root);
  if (symlink(Env("PBT_TOOLS").c_str(), (root + "/tool").c_str()) != 0) throw pbt::Discard();
  // Language model, vocabulary and what arpa2fst makes of it
  int words = c.range(3, 12), order = c.range(1, 3); std::string vocab = "<eps> 0\n", uni, text; std::vector<std::string> name; std::vector<double> lp; for (int i = 0; i < words; ++i) { name.push_back(i == 0 ? "<s>" : i == 1 ? "</s>" : "w" + std::to_string(i)); vocab += name[i] + " " + std::to_string(i + 1) + "\n"; lp.push_back(i ? -strtod(Num(g.unit() * 5).c_str(), nullptr) : -99); uni += Num(lp[i]) + "\t" + name[i] + (order > 1 && i != 1 ? "\t" + Num(-g.unit()) : "") + "\n"; }
  text = "\\data\\\nngram 1=" + std::to_string(words) + "\n"; for (int o = 2; o <= order; ++o) text += "ngram " + std::to_string(o) + "=2\n"; text += "\n\\1-grams:\n" + uni + "\n"; for (int o = 2; o <= order; ++o) { text += "\\" + std::to_string(o) + "-grams:\n"; for (int k = 0; k < 2; ++k) { text += Num(-g.unit()); for (int q = 0; q < o; ++q) text += (q ? " " : "\t") + name[g.range(2, words - 1)]; text += "\n"; } text += "\n"; } text += "\\end\\\n";
  int states = c.range(1, 5); std::string fst = "start 0\nstates " + std::to_string(states) + "\nfinal 0 0.5\n"; for (int s = 0; s < states; ++s) fst += pbt::strf("arc %d %d %d %d %s\n", s, g.range(0, states - 1), 1 + s % words, 1 + s % words, Num(g.unit()).c_str());
  for (const char *f : {"L_disambig.fst", "L.fst", "phones.txt"}) gen::WriteFile(w + "/data/lang_test/" + f, std::string(f) + std::to_string(g.upto(999))); gen::WriteFile(w + "/data/lang_test/words.txt", vocab); gen::WriteFile(w + "/data/lang_test/phones/disambig.txt", "#0"); gen::WriteFile(w + "/data/local/dict/lexicon.txt", "w2 a\n"); gen::WriteFile(w + "/path.sh", "export POCKETKALDI_ROOT='" + root + "'\n");
  static const char *steps[] = {"none", "format_lm.sh", "mkgraph.sh", "arpa2fst", "no language model", "damaged archive", "model without end", "no phones", "word outside of the vocabulary", "invalid transducer", "POCKETKALDI_ROOT not set", "L.fst missing", "prune_lm.py missing"}; int fail = c.flip() ? 0 : c.range(1, 12);
  std::string lm = c.pick(std::vector<std::string>{"lm.gz", "data/local/lm.3gram.gz", "a model.gz"}); if (c.flip()) lm = w + "/" + lm; std::string lmp = lm[0] == '/' ? lm : w + "/" + lm; Mkdirs(lmp.substr(0, lmp.rfind('/')));
  switch (fail) { case 6: text.resize(text.size() - 7); break; case 7: rmdir((w + "/data/lang_test/phones").c_str()); unlink((w + "/data/lang_test/phones/disambig.txt").c_str()); rmdir((w + "/data/lang_test/phones").c_str()); break; case 8: gen::WriteFile(w + "/data/lang_test/words.txt", vocab.substr(0, vocab.rfind('w'))); break; case 9: fst = "start x\n"; break; case 10: gen::WriteFile(w + "/path.sh", "unset POCKETKALDI_ROOT\n"); break; case 11: unlink((w + "/data/lang_test/L.fst").c_str()); break; case 12: unlink((root + "/tool").c_str()); Mkdirs(root + "/tool"); for (const char *f : {"convert_unigram.py", "convert_fstfmt.py"}) if (symlink(Tool(f).c_str(), (root + "/tool/" + f).c_str()) != 0) throw pbt::Discard(); break; }
  gen::WriteFile(d + "/lm.arpa", text); gen::WriteFile(d + "/fst.txt", fst); if (fail != 4) { gen::Ran z = gen::RunProgram({"gzip", "-c"}, d + "/lm.arpa", lmp); if (!z.exited || z.code) throw pbt::Discard(); } if (fail == 5) { std::string b = gen::ReadAll(lmp); b.resize(b.size() / 2); gen::WriteFile(lmp, b); }
  auto stub = [&](int step) { return "echo \"$@\" >> '" + rec + "/" + steps[step] + ".args'\n" + (fail == step ? "exit 3\n" : ""); };
  Script(w + "/utils/format_lm.sh", stub(1) + "gunzip -c \"$2\" > '" + rec + "/pruned.arpa' || exit 1\n[ -d \"$1\" -a -f \"$3\" ] || exit 1\nmkdir -p \"$4\" && cksum < '" + rec + "/pruned.arpa' > \"$4/G.fst\"\n");
  Script(w + "/utils/mkgraph.sh", stub(2) + "for f in L_disambig.fst L.fst G.fst phones.txt words.txt phones/disambig.txt; do [ -f \"$1/$f\" ] || exit 1; done\ncp \"$1/G.fst\" '" + rec + "/G.fst'\nmkdir -p \"$3\" && cat \"$1/L.fst\" \"$1/G.fst\" > \"$3/HCLG.fst\"\n");
  Script(bin + "/arpa2fst", stub(3) + "for a in \"$@\"; do case \"$a\" in --read-symbol-table=*) cp \"${a#*=}\" '" + rec + "/words.txt' || exit 1;; esac; out=$a; done\ncat > '" + rec + "/full.arpa'\ncp '" + d + "/fst.txt' \"$out\"\n");
  bool stale = c.flip(); if (stale) { Mkdirs(w + "/pasco_graph/lang_test"); gen::WriteFile(w + "/pasco_graph/lang_test/stale", "x"); gen::WriteFile(w + "/pasco_graph/HCLG.fst", "old"); }
  c.note(pbt::strf("order %d, %d words, failure: %s%s", order, words, steps[fail], stale ? ", after an earlier run" : "")); c.label(steps[fail]); c.nontrivial();
  gen::Ran r = gen::RunProgram({"env", "-u", "POCKETKALDI_ROOT", "PATH=" + bin + ":" + Env("PATH"), "bash", Tool("mkgraph_hcl.sh"), lm}, "", d + "/stdout", d + "/stderr", 0, w); std::string err = gen::Esc(gen::ReadAll(d + "/stderr"), 300); REQUIRE(r.exited, "the script was ended by signal %d", r.signal);
  if (fail) { REQUIRE(r.code != 0, "failure '%s': exit status 0: %s", steps[fail], err.c_str()); REQUIRE(!Exists(w + "/G.pfst"), "failure '%s': G.pfst is written all the same", steps[fail]); return; }
  REQUIRE(r.code == 0, "exit status %d: %s", r.code, err.c_str());
  // The graph is made from the unigram model
  std::string p = gen::ReadAll(rec + "/pruned.arpa"); int seen = 0; for (size_t at = 0; at < p.size();) { size_t nl = p.find('\n', at); std::string l = p.substr(at, nl - at); at = nl == std::string::npos ? p.size() : nl + 1; char wd[64]; double q; int o, k; if (sscanf(l.c_str(), "ngram %d = %d", &o, &k) == 2) REQUIRE(o == 1 && k == words, "the model given to format_lm.sh says '%s'", l.c_str()); else if (sscanf(l.c_str(), "%lf %63s", &q, wd) == 2) { REQUIRE(seen < words && name[seen] == wd && fabs(q - lp[seen]) < 1e-5 * (1 + fabs(q)), "the model given to format_lm.sh has the line '%s'", l.c_str()); ++seen; } } REQUIRE(seen == words, "the model given to format_lm.sh has %d of %d words", seen, words);
  REQUIRE(gen::ReadAll(rec + "/full.arpa") == text, "arpa2fst did not get the language model that was given"); REQUIRE(gen::ReadAll(rec + "/words.txt") == vocab, "arpa2fst got another vocabulary");
  REQUIRE(Exists(rec + "/G.fst") && gen::ReadAll(w + "/pasco_graph/HCLG.fst") == gen::ReadAll(w + "/data/lang_test/L.fst") + gen::ReadAll(rec + "/G.fst"), "HCLG.fst is not what mkgraph.sh made from the graph of format_lm.sh"); REQUIRE(!Exists(w + "/pasco_graph/lang_test/stale"), "files of an earlier run are left");
  Vector<float> v; { util::ReadableFile fd; REQUIRE(fd.Open(w + "/lm.1order.bin").ok() && v.Read(&fd).ok(), "cannot load lm.1order.bin"); } REQUIRE(v.Dim() == words + 1, "%d unigram costs for %d words", v.Dim(), words); for (int i = 0; i < words; ++i) { double e = i ? -lp[i] * log(10.0) : 0; REQUIRE(fabs(v(i + 1) - e) <= 1e-5 * (1 + fabs(e)), "the cost of '%s' is %g, expected %g", name[i].c_str(), v(i + 1), e); }
  Fst f; { util::ReadableFile fd; REQUIRE(fd.Open(w + "/G.pfst").ok() && f.Read(&fd).ok(), "cannot load G.pfst"); } for (int s = 0; s < states; ++s) { FstArc a; REQUIRE(f.GetArc(s, 1 + s % words, &a), "G.pfst lacks the arc of state %d", s); }
}

// ---------------------------------------------------------------- C33

namespace {
struct Lines { std::vector<std::string> l; std::string Join() const { std::string s; for (auto &x : l) s += x + "\n"; return s; } };
struct Damaged { std::string what, tool; std::vector<std::pair<std::string, std::string>> files; std::vector<std::string> args; std::string in, out; };
const char *Junk(pbt::Rng *g) { static const char *j[] = {"x", "1.5x", "--3", "0x", "twelve", "1,5", "?"}; return j[g->upto(6)]; }

bool Trans(Case &c, pbt::Rng *g, Damaged *t) {
  t->tool = "convert_trans.py"; int n = c.range(1, 30), pdfs = c.range(1, 12); Lines f; f.l = {std::to_string(pdfs), std::to_string(n)}; for (int i = 0; i <= n; ++i) f.l.push_back(std::to_string(i) + " " + std::to_string(i ? g->range(0, pdfs - 1) : 0));
  int at = 3 + static_cast<int>(c.upto(n - 1)); std::string id = std::to_string(at - 2), pdf = f.l[at].substr(id.size() + 1); bool bad = true;
  switch (c.upto(12)) {
    case 0: bad = false; break; case 1: t->what = "a line is missing"; f.l.erase(f.l.begin() + at); break; case 2: t->what = "the end is missing"; f.l.resize(at); break; case 3: t->what = "pdf out of range"; f.l[at] = id + " " + std::to_string(pdfs + g->range(0, 50)); break; case 4: t->what = "negative pdf"; f.l[at] = id + " -" + std::to_string(1 + g->range(0, 5)); break;
    case 5: t->what = "id out of range"; f.l[at] = std::to_string(n + 1 + g->range(0, 50)) + " " + pdf; break; case 6: t->what = "negative id"; f.l[at] = "-" + std::to_string(g->range(1, n)) + " " + pdf; break; case 7: t->what = "repeated id"; if (n < 2) throw pbt::Discard(); f.l[at] = std::to_string((at - 2) % n + 1) + " " + pdf; break; case 8: t->what = "one field"; f.l[at] = id; break; case 9: t->what = "three fields"; f.l[at] += " 0"; break;
    case 10: t->what = "no number"; f.l[at] = g->upto(1) ? id + " " + Junk(g) : std::string(Junk(g)) + " " + pdf; break; case 11: t->what = "more transitions announced"; f.l[1] = std::to_string(n + 1 + g->range(0, 9)); break; default: t->what = "a header is missing"; f.l.erase(f.l.begin() + g->upto(1)); break;
  }
  t->files = {{"in", f.Join()}}; t->args = {"in", "out"}; t->out = "out"; return bad;
}
bool Cmvn(Case &c, pbt::Rng *g, Damaged *t) {
  t->tool = "convert_cmvn_stats.py"; std::vector<std::string> v; for (int i = 0; i < 82; ++i) v.push_back(Num(g->gauss() * 1e4)); bool bad = true; int at = c.upto(81);
  switch (c.upto(4)) { case 0: bad = false; break; case 1: t->what = "a number is missing"; v.erase(v.begin() + at); break; case 2: t->what = "one number more"; v.insert(v.begin() + at, "1.5"); break; case 3: t->what = "no number"; v[at] = Junk(g); break; default: t->what = "the end is missing"; v.resize(at); }
  std::string s = " [\n  "; for (size_t i = 0; i < v.size(); ++i) s += v[i] + (i == 40 ? "\n  " : " "); t->files = {{"in", s + "]\n"}}; t->args = {"in", "out"}; t->out = "out"; return bad;
}
bool Words(Case &c, pbt::Rng *g, Damaged *t) {
  t->tool = "convert_words.py"; int n = c.range(2, 20); Lines f; for (int i = 0; i < n; ++i) f.l.push_back("w" + std::to_string(i) + " " + std::to_string(i)); int at = c.upto(n - 1); std::string w = "w" + std::to_string(at); bool bad = true;
  switch (c.upto(5)) { case 0: bad = false; break; case 1: t->what = "one field"; f.l[at] = w; break; case 2: t->what = "three fields"; f.l[at] += " 7"; break; case 3: t->what = "no number"; f.l[at] = w + " " + Junk(g); break; case 4: t->what = "negative id"; f.l[at] = w + " -" + std::to_string(g->range(1, n)); break; default: t->what = "repeated id"; f.l[at] = w + " " + std::to_string((at + 1) % n); }
  t->files = {{"in", f.Join()}}; t->args = {"in", "out"}; t->out = "out"; return bad;
}
bool Arpa(Case &c, pbt::Rng *g, Damaged *t) {
  bool prune = c.flip(); t->tool = prune ? "prune_lm.py" : "convert_unigram.py"; int n = c.range(2, 12), order = c.range(1, 2); Lines f, v; v.l = {"<eps> 0", "<s> 1", "</s> 2"}; f.l = {"\\data\\", "ngram 1=" + std::to_string(n + 2)}; if (order > 1) f.l.push_back("ngram 2=1"); f.l.push_back(""); f.l.push_back("\\1-grams:"); size_t first = f.l.size(); f.l.push_back("-99\t<s>"); f.l.push_back("-1.5\t</s>");
  for (int i = 0; i < n; ++i) { v.l.push_back("w" + std::to_string(i) + " " + std::to_string(i + 3)); f.l.push_back("-" + Num(g->unit() * 5) + "\tw" + std::to_string(i) + (order > 1 ? "\t-0.5" : "")); } size_t past = f.l.size(); f.l.push_back(""); if (order > 1) { f.l.push_back("\\2-grams:"); f.l.push_back("-0.25\tw0 w1"); f.l.push_back(""); } size_t end = f.l.size(); f.l.push_back("\\end\\"); size_t at = first + c.upto(past - first - 1); bool bad = true;
  switch (c.upto(prune ? 5 : 9)) {
    case 0: bad = false; break; case 1: t->what = "no end"; f.l.resize(c.flip() ? end : c.upto(end)); break; case 2: t->what = "text before the data"; f.l.insert(f.l.begin(), "hello world"); break; case 3: t->what = "a line of one field"; f.l[at] = "-1.5"; break; case 4: t->what = "a line of many fields"; f.l[at] = "-1.5 a b c"; break; case 5: t->what = "no section of the counts"; f.l.erase(f.l.begin()); break;
    case 6: t->what = "no number"; f.l[at] = std::string(Junk(g)) + "\tw0"; break; case 7: t->what = "word outside of the vocabulary"; v.l.erase(v.l.begin() + 2 + c.upto(n)); break; case 8: t->what = "vocabulary line of one field"; v.l[c.upto(n + 2)] = "w0"; break; default: t->what = "vocabulary id is no number"; v.l[3 + c.upto(n - 1)] = std::string("w0 ") + Junk(g);
  }
  t->files = {{"in", f.Join()}, {"vocab", v.Join()}}; if (prune) { t->in = "in"; t->out = "stdout"; } else { t->args = {"in", "vocab", "out"}; t->out = "out"; } return bad;
}
bool Am(Case &c, pbt::Rng *g, Damaged *t) {
  t->tool = "convert_am.py"; int in = c.range(2, 4), hid = c.range(2, 5), pdfs = c.range(2, 5); bool app = c.flip(), bn = c.flip(); int cols = app ? 2 * in : in; bool bad = true; int k = c.upto(12), prior = pdfs, b1 = hid, w2 = hid, bnd = hid; std::string type = "RectifiedLinearComponent", missing;
  auto vec = [&](int n) { std::string s = " [ "; for (int i = 0; i < n; ++i) s += Num(0.1 + g->unit()) + " "; return s + "]\n"; }; auto mat = [&](int r, int q, bool ragged) { std::string s = " [\n"; int odd = g->range(0, r - 1); for (int i = 0; i < r; ++i) { s += "  "; for (int j = 0; j < q - (ragged && i == odd); ++j) s += Num(g->gauss()) + " "; s += i + 1 < r ? "\n" : "]\n"; } return s; };
  int other = 1 + g->range(0, 1) * 5; auto off = [&](int n) { return g->upto(1) ? n + other : n - 1; };
  switch (k) { case 0: bad = false; break; case 1: t->what = "dimension of the priors"; prior = off(pdfs); break; case 2: t->what = "dimension of a bias"; b1 = off(hid); break; case 3: t->what = "dimension of a linear layer"; w2 = off(hid); break; case 4: if (!bn) throw pbt::Discard(); t->what = "dimension of a batch norm"; bnd = off(hid); break; case 5: t->what = "unknown component"; type = "SigmoidComponent"; break; case 6: t->what = "component missing"; missing = "r1"; break; case 7: t->what = "ragged matrix"; break; }
  std::string s = "<TransitionModel> </TransitionModel>\n<Nnet3> \ninput-node name=input dim=" + std::to_string(in) + "\ncomponent-node name=a1 component=a1 input=" + (app ? "Append(input, Offset(input, 1))" : "input") + "\ncomponent-node name=r1 component=r1 input=a1\n"; if (bn) s += "component-node name=b1 component=b1 input=r1\n"; s += std::string("component-node name=a2 component=a2 input=") + (bn ? "b1" : "r1") + "\ncomponent-node name=ls component=ls input=a2\noutput-node name=output input=ls objective=linear\n\n<NumComponents> " + (bn ? "5" : "4") + " \n";
  s += "<ComponentName> a1 <NaturalGradientAffineComponent> <LinearParams> " + mat(hid, cols, k == 7) + "<BiasParams> " + vec(b1) + "<RankIn> 20 </NaturalGradientAffineComponent> "; if (missing.empty()) s += "<ComponentName> r1 <" + type + "> <Dim> " + std::to_string(hid) + " </" + type + "> ";
  if (bn) s += "<ComponentName> b1 <BatchNormComponent> <Dim> " + std::to_string(bnd) + " <BlockDim> " + std::to_string(bnd) + " <Epsilon> 0.001 <TargetRms> 1 <TestMode> F <Count> 10 <StatsMean> " + vec(bnd) + "<StatsVar> " + vec(k == 4 && g->upto(1) ? hid : bnd) + "</BatchNormComponent> ";
  s += "<ComponentName> a2 <NaturalGradientAffineComponent> <LinearParams> " + mat(pdfs, w2, false) + "<BiasParams> " + vec(pdfs) + "<RankIn> 20 </NaturalGradientAffineComponent> <ComponentName> ls <LogSoftmaxComponent> <Dim> " + std::to_string(pdfs) + " </LogSoftmaxComponent> </Nnet3> <LeftContext> 0 <RightContext> " + (app ? "1" : "0") + " <Priors> " + vec(prior);
  size_t bracket = s.rfind(']');
  if (k == 8 || k == 9) { t->what = "truncated"; s.resize(c.upto(bracket)); }
  if (k == 10) { t->what = "no number"; std::vector<size_t> at; for (size_t i = s.find("<NumComponents>"); i + 1 < s.size(); ++i) if (s[i] == ' ' && (s[i + 1] == '0' || s[i + 1] == '-') && s.find(']', i) < s.find('<', i)) at.push_back(i + 1); if (at.empty()) throw pbt::Discard(); size_t i = at[g->upto(at.size() - 1)]; s.insert(i, "x"); }
  if (k == 11) { t->what = "a tag is missing"; static const char *tags[] = {"<Nnet3>", "</Nnet3>", "<NumComponents>", "<LinearParams>", "<BiasParams>", "<Priors>", "<ComponentName>"}; const char *q = tags[g->upto(6)]; size_t i = s.find(q); s.erase(i, strlen(q)); }
  if (k == 12) { t->what = "input of a node that does not exist"; size_t i = s.find("input=a1"); s.replace(i, 8, "input=zz"); }
  t->files = {{"in", s}}; t->args = {"in", "out"}; t->out = "out.nnet"; return bad;
}
}

PROPERTY("C33", damaged_tool_input, 480, 9000) {
  pbt::Rng g(c.seed()); Damaged t; bool bad = false; int tool = c.weighted({3, 2, 2, 3, 4, 1});
  switch (tool) { case 0: bad = Trans(c, &g, &t); break; case 1: bad = Cmvn(c, &g, &t); break; case 2: bad = Words(c, &g, &t); break; case 3: bad = Arpa(c, &g, &t); break; case 4: bad = Am(c, &g, &t); break; default: t.tool = "convert_fstfmt.py"; t.files = {{"in", "start 0\nstates 2\nfinal 1 0.5\narc 0 1 1 1 0.25\n"}}; t.args = {"in", "out", c.flip() ? "binary" : "text"}; if (c.flip()) t.args.pop_back(); t.out = "out"; }
  // Wrong usage, missing input, output that cannot be written
  if (!bad && c.chance(2, 3)) { t.what.clear(); switch (c.upto(3)) {
    case 0: if (t.args.empty()) break; t.what = "an argument too few"; if (t.args.size() == 3 && tool == 5) t.args.pop_back(); t.args.pop_back(); bad = true; break;
    case 1: if (t.args.empty()) break; t.what = "an argument too many"; if (tool == 5 && t.args.size() == 2) t.args.push_back("binary"); t.args.push_back("more"); bad = true; break;
    case 2: if (t.args.empty()) break; t.what = "the input is missing"; t.args[tool == 3 ? c.upto(1) : 0] = "none"; bad = true; break;
    default: if (t.args.empty()) break; t.what = "the output cannot be written"; t.args[tool == 3 ? 2 : 1] = "none/out"; bad = true; break; } }
  std::string d = c.dir() + "/"; for (auto &f : t.files) gen::WriteFile(d + f.first, f.second); std::vector<std::string> argv{Env("PBT_PYTHON"), "-B", Tool(t.tool.c_str())}; argv.insert(argv.end(), t.args.begin(), t.args.end());
  gen::Ran r = gen::RunProgram(argv, t.in.empty() ? "" : d + t.in, d + "stdout", d + "stderr", 0, d); std::string e = gen::ReadAll(d + "stderr"); if (e.size() > 300) e = e.substr(e.size() - 300); c.note(t.tool + ": " + (bad ? t.what : "intact")); c.label(bad ? t.tool : "intact"); if (bad) c.nontrivial(); REQUIRE(r.exited, "%s was ended by signal %d", t.tool.c_str(), r.signal);
  if (!bad) { REQUIRE(r.code == 0, "%s fails for intact input with status %d: %s", t.tool.c_str(), r.code, gen::Esc(e + gen::ReadAll(d + "stdout"), 600).c_str()); REQUIRE(Exists(d + t.out), "%s wrote no output", t.tool.c_str());
    // The same with less space than the output needs
    size_t need = gen::ReadAll(d + t.out).size(); if (t.tool == "convert_am.py") need = std::max(need, gen::ReadAll(d + "out.prior").size()); if (need == 0 || c.chance(1, 3)) return;
    long room = c.flip() ? static_cast<long>(need) - 1 - c.upto(std::min<size_t>(need - 1, 8)) : c.upto(need - 1); r = gen::RunProgram(argv, t.in.empty() ? "" : d + t.in, d + "stdout", d + "stderr", 0, d, room); c.note(pbt::strf("%s: room for %ld of %zu bytes", t.tool.c_str(), room, need)); c.label("no room for the output"); c.nontrivial();
    REQUIRE(!r.exited || r.code != 0, "%s ended with status 0, but only %ld of %zu bytes could be written", t.tool.c_str(), room, need); return;
  }
  REQUIRE(r.code != 0, "%s ended with status 0: %s", t.tool.c_str(), t.what.c_str());
}
