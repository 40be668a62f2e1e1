// C30 text and file utilities, C21 configuration files, C22 symbol tables
#include <limits.h>
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <unistd.h>
#include "configuration.h"
#include "gen.h"
#include "status.h"
#include "symbol_table.h"
#include "util.h"

using namespace pocketkaldi;
using gen::Str;
using gen::Esc;
using pbt::Case;

namespace {
bool Space(char ch) { return ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r' || ch == '\v' || ch == '\f'; }
std::string RTrimEol(std::string s) { while (!s.empty() && (s.back() == '\r' || s.back() == '\n')) s.pop_back(); return s; }
std::string RefTrim(const std::string &s) {
  size_t b = 0, e = s.size();
  while (b < e && Space(s[b])) ++b;
  while (e > b && Space(s[e - 1])) --e;
  return s.substr(b, e - b);
}
const char kText[] = "ab =#\t\r{}./_Z9-";

// A line: mostly short, sometimes around the sizes of usual buffers
std::string GenLine(Case &c) {
  switch (c.weighted({12, 1, 1})) {
    case 0: return Str(c, std::string(kText), 0, 12);
    case 1: { int base = c.pick(std::vector<int>{255, 511, 1023, 1024, 2048, 4094, 4095, 4096, 8190, 8191, 12000});
              std::string s(base + c.range(0, 2), 'x'); s[s.size() / 2] = 'y'; s += Str(c, "pq ", 0, 3); return s; }
    default: return std::string(c.range(0, 5), '\xe4') + Str(c, "\xbd\xa0 a", 0, 6);
  }
}
}  // namespace

PROPERTY("C30", readline_model, 12000, 200000) {
  // A file made of lines, the last one possibly unterminated
  std::string data; std::vector<std::string> lines;
  int n = c.range(0, 8);
  for (int i = 0; i < n; ++i) {
    std::string l = GenLine(c);
    bool last = i == n - 1;
    bool term = !last || !c.chance(1, 2);
    std::string eol = term ? (c.chance(1, 4) ? "\r\n" : "\n") : "";
    if (!term && l.empty()) { break; }
    data += l + eol; lines.push_back(RTrimEol(l + eol));
  }
  std::string path = c.dir() + "/f.txt";
  gen::WriteFile(path, data);
  c.note("file '" + Esc(data) + "' " + pbt::strf("(%zu bytes, %zu lines)", data.size(), lines.size()));
  bool unterm = !data.empty() && data.back() != '\n';
  if (unterm) c.label("unterminated-last-line");
  bool longl = false; for (auto &l : lines) if (l.size() >= 4095) longl = true;
  if (longl) c.label("line>=4095");
  if (lines.size() >= 2 || unterm || longl) c.nontrivial();

  util::ReadableFile fd;
  FILE *borrowed = nullptr;
  std::unique_ptr<util::ReadableFile> bfd;
  util::ReadableFile *f = &fd;
  if (c.chance(1, 4)) {
    borrowed = fopen(path.c_str(), "rb"); bfd.reset(new util::ReadableFile(borrowed)); f = bfd.get(); c.label("borrowed");
  } else {
    Status st = fd.Open(path);
    REQUIRE(st.ok(), "Open of an existing file: %s", st.what().c_str());
    REQUIRE(fd.file_size() == static_cast<int64_t>(data.size()), "file_size() = %ld, the file has %zu bytes", static_cast<long>(fd.file_size()), data.size());
    REQUIRE(fd.filename() == path, "filename()");
    if (c.chance(1, 6)) {   // reopening starts again
      Status s2; std::string l; for (int k = 0; k < 3; ++k) fd.ReadLine(&l, &s2);
      fd.Close(); REQUIRE(fd.Open(path).ok(), "reopen"); c.label("reopened");
    }
  }
  for (size_t i = 0; i < lines.size(); ++i) {
    std::string l = "stale"; Status st;
    REQUIRE(!f->Eof() , "Eof() reported before line %zu of %zu was read", i, lines.size());
    bool ok = f->ReadLine(&l, &st);
    REQUIRE(ok && st.ok(), "line %zu of %zu not delivered (ok=%d, status '%s')", i, lines.size(), ok, st.what().c_str());
    REQUIRE(l == lines[i], "line %zu: got '%s' (%zu bytes), file has '%s' (%zu bytes)", i, Esc(l).c_str(), l.size(), Esc(lines[i]).c_str(), lines[i].size());
  }
  std::string l; Status st;
  REQUIRE(!f->ReadLine(&l, &st), "a line after the last one: '%s'", Esc(l).c_str());
  REQUIRE(st.ok(), "first end-of-file reported as an error: %s", st.what().c_str());
  for (int k = 0; k < 2; ++k) {
    Status st2;
    REQUIRE(!f->ReadLine(&l, &st2) && !st2.ok(), "ReadLine() after the reported end-of-file should fail");
  }
  if (borrowed) {
    bfd.reset();
    REQUIRE(ftell(borrowed) >= 0, "a borrowed file was closed");
    fclose(borrowed);
  }
}

// Files far beyond any buffer: many lines, very long lines
PROPERTY("C30", long_files, 120, 2000) {
  pbt::Rng g(c.seed()); int n = c.chance(1, 3) ? c.range(1, 4) : c.range(500, 6000), mean = n < 5 ? c.range(20000, 300000) : c.range(0, 120); std::string data; std::vector<std::string> lines; bool crlf = c.flip(), last = c.flip();
  for (int i = 0; i < n; ++i) { int len = g.upto(2 * mean); std::string l; for (int k = 0; k < len; ++k) l += "abcdefgh ij=#\t\xe4"[g.upto(14)]; if (i == n - 1 && !last) l += "z"; lines.push_back(l); data += l; if (i < n - 1 || last) data += crlf && g.upto(1) ? "\r\n" : "\n"; }
  std::string path = c.dir() + "/l.txt"; gen::WriteFile(path, data); c.note(pbt::strf("%zu bytes in %d lines", data.size(), n)); c.nontrivial(); util::ReadableFile fd; REQUIRE(fd.Open(path).ok() && fd.file_size() == static_cast<int64_t>(data.size()), "open, or file_size()");
  for (int i = 0; i < n; ++i) { std::string l; Status st; REQUIRE(fd.ReadLine(&l, &st) && st.ok(), "line %d of %d not delivered: %s", i, n, st.what().c_str()); REQUIRE(l == lines[i], "line %d of %d (%zu bytes) has %zu bytes in the file or other content", i, n, l.size(), lines[i].size()); }
  std::string l; Status st; REQUIRE(!fd.ReadLine(&l, &st) && st.ok(), "no end of file after the last line"); Status s2; REQUIRE(!fd.ReadLine(&l, &s2) && !s2.ok(), "no error after the end of file");
  // The same bytes in binary reads
  util::ReadableFile b; REQUIRE(b.Open(path).ok(), "open"); size_t pos = 0; while (pos < data.size()) { size_t k = std::min<size_t>(data.size() - pos, 1 + g.upto(g.upto(3) ? 5000 : 200000)); std::string got(k, '?'); Status r = b.Read(&got[0], k); REQUIRE(r.ok() && data.compare(pos, k, got) == 0, "%zu bytes at %zu of %zu: %s", k, pos, data.size(), r.what().c_str()); pos += k; }
  char x; REQUIRE(!b.Read(&x, 1).ok(), "a byte after the last one");
  // Strings of that length
  std::string big = data.substr(0, g.upto(40000)); REQUIRE(util::Trim(big) == RefTrim(big), "Trim() of %zu bytes", big.size()); std::vector<std::string> exp; size_t f = 0, q; while ((q = big.find('a', f)) != std::string::npos) { exp.push_back(big.substr(f, q - f)); f = q + 1; } if (f < big.size()) exp.push_back(big.substr(f)); REQUIRE(util::Split(big, "a") == exp, "Split() of %zu bytes", big.size());
  std::string low = big; for (auto &ch : low) if (ch >= 'A' && ch <= 'Z') ch += 32; REQUIRE(util::Tolower(big) == low, "Tolower() of %zu bytes", big.size()); REQUIRE(util::Format("<{}|{}>", big, low) == "<" + big + "|" + low + ">", "Format() with %zu bytes", big.size());
}

PROPERTY("C30", read_bytes_model, 12000, 200000) {
  int n = c.chance(1, 50) ? c.range(1000, 300000) : c.range(0, 200), most = n > 200 ? 100000 : 60; std::string data;
  pbt::Rng r(c.seed()); for (int i = 0; i < n; ++i) data += static_cast<char>(r.next());
  std::string path = c.dir() + "/b.bin"; gen::WriteFile(path, data);
  util::ReadableFile fd; REQUIRE(fd.Open(path).ok(), "open");
  size_t pos = 0; int ops = c.range(1, 12); int reads = 0;
  c.note(pbt::strf("%d bytes, %d reads", n, ops));
  for (int i = 0; i < ops; ++i) {
    int k = c.weighted({4, 2, 2});
    if (k == 0) {
      int want = c.range(1, most); std::vector<char> b(want, 0x55);
      Status st = fd.Read(b.data(), want);
      bool expect = pos + want <= data.size();
      REQUIRE(st.ok() == expect, "Read(%d) at %zu of %zu: %s", want, pos, data.size(), st.what().c_str());
      if (!expect) { c.label("short-read"); c.nontrivial(); return; }
      REQUIRE(memcmp(b.data(), data.data() + pos, want) == 0, "Read(%d) at %zu delivered other bytes", want, pos);
      pos += want; ++reads;
    } else if (k == 1) {
      int32_t v = 0; Status st = fd.ReadValue<int32_t>(&v);
      bool expect = pos + 4 <= data.size();
      REQUIRE(st.ok() == expect, "ReadValue<int32_t> at %zu of %zu", pos, data.size());
      if (!expect) { c.label("short-read"); c.nontrivial(); return; }
      REQUIRE(memcmp(&v, data.data() + pos, 4) == 0, "ReadValue"); pos += 4; ++reads;
    } else {
      // A signature: the bytes that are there, or with one of them changed. (C strings only)
      int len = c.range(1, 6);
      if (pos + len > data.size()) continue;
      std::string sig = data.substr(pos, len);
      if (sig.find('\0') != std::string::npos) continue;
      bool same = c.flip();
      if (!same) { size_t at = c.upto(len - 1); sig[at] = sig[at] == 'A' ? 'B' : 'A'; }
      Status st = fd.ReadAndVerifyString(sig);
      REQUIRE(st.ok() == same, "ReadAndVerifyString('%s') where the file has '%s': %s", Esc(sig).c_str(), Esc(data.substr(pos, len)).c_str(), st.what().c_str());
      pos += len; ++reads; c.label(same ? "signature-match" : "signature-mismatch");
      if (!same) { c.nontrivial(); return; }
    }
  }
  if (reads > 1) c.nontrivial();
  // A missing file is an error that names it
  std::string miss = c.dir() + "/no-such-" + Str(c, "abc{}", 1, 6);
  util::ReadableFile m; Status st = m.Open(miss);
  REQUIRE(!st.ok() && st.what().find(miss) != std::string::npos, "opening a missing file: ok=%d '%s'", st.ok(), st.what().c_str());
}

// Errors carry their kind and their message; what cannot be read is an error of its own kind
PROPERTY("C30", status_values, 3000, 30000) {
  std::string msg = Str(c, "ab {}:%s\n\xe4", 0, 40); int k = c.upto(5); c.note(pbt::strf("kind %d, message '%s'", k, Esc(msg).c_str())); if (!msg.empty()) c.nontrivial();
  Status st; const char *pre = "";
  switch (k) {
    case 0: st = Status::IOError(msg); pre = "IOError: "; break;
    case 1: st = Status::Corruption(msg); pre = "Corruption: "; break;
    case 2: st = Status::NotImplemented(msg); pre = "NotImplemented: "; break;
    case 3: st = Status::RuntimeError(msg); pre = "RuntimeError: "; break;
    case 4: st = Status::Info(msg); break;
    default: st = Status::OK();
  }
  Status kinds[] = {Status::IOError(""), Status::Corruption(""), Status::NotImplemented(""), Status::RuntimeError(""), Status::Info(""), Status::OK()};
  Status copy = st; st = Status();
  REQUIRE(copy.ok() == (k == 5) && st.ok() && Status::OK().ok(), "ok() is %d for kind %d", copy.ok(), k);
  REQUIRE(copy.what() == (k == 5 ? "" : pre + msg), "what() is '%s'", Esc(copy.what()).c_str());
  for (int i = 0; i <= 5; ++i) REQUIRE((copy.code() == kinds[i].code()) == (i == k), "kind %d has code %d, kind %d has code %d", k, copy.code(), i, kinds[i].code());
  // A directory can be opened, but has neither lines nor bytes
  if (c.chance(1, 20)) {
    util::ReadableFile d; if (!d.Open(c.dir()).ok()) return; c.label("directory"); std::string line = "x"; Status e; int32_t v;
    for (int i = 0; i < 2; ++i) { e = Status::OK(); REQUIRE(!d.ReadLine(&line, &e) && !e.ok(), "a line was read from a directory, or its end reported: '%s'", e.what().c_str()); }
    REQUIRE(!d.ReadValue<int32_t>(&v).ok() && !d.ReadAndVerifyString("a").ok(), "bytes were read from a directory");
  }
}

PROPERTY("C30", string_functions, 30000, 600000) {
  std::string s = Str(c, std::string(" \t\r\nab=,Z{}\xc3\xa9\v\f"), 0, 14);
  std::string d = c.chance(1, 3) ? Str(c, "=, a", 1, 2) : std::string(1, "=, "[c.upto(2)]);
  c.note("s='" + Esc(s) + "' delim='" + d + "'");
  if (s.size() > 2) c.nontrivial();
  REQUIRE(util::Trim(s) == RefTrim(s), "Trim('%s') = '%s'", Esc(s).c_str(), Esc(util::Trim(s)).c_str());
  std::vector<std::string> exp; size_t b = 0, p;
  while ((p = s.find(d, b)) != std::string::npos) { exp.push_back(s.substr(b, p - b)); b = p + d.size(); }
  if (b < s.size()) exp.push_back(s.substr(b));
  std::vector<std::string> got = util::Split(s, d);
  REQUIRE(got == exp, "Split('%s', '%s') has %zu fields, %zu expected or fields differ", Esc(s).c_str(), d.c_str(), got.size(), exp.size());
  std::string low; for (char ch : s) low += (ch >= 'A' && ch <= 'Z') ? static_cast<char>(ch + 32) : ch;
  REQUIRE(util::Tolower(s) == low, "Tolower('%s')", Esc(s).c_str());
  // strlcpy
  size_t cap = c.range(0, 18); std::vector<char> dst(cap + 2, '\x7e');
  size_t ret = pasco_strlcpy(dst.data(), s.c_str(), cap);
  size_t slen = strlen(s.c_str());
  REQUIRE(ret == slen, "strlcpy returned %zu for a source of %zu", ret, slen);
  if (cap > 0) {
    size_t n = std::min(slen, cap - 1);
    REQUIRE(memcmp(dst.data(), s.data(), n) == 0 && dst[n] == 0, "strlcpy(cap=%zu) content", cap);
  }
  REQUIRE(dst[cap] == '\x7e' && dst[cap + 1] == '\x7e', "strlcpy wrote past the buffer (cap=%zu)", cap);
  // Numbers
  long v = 0; std::string num; bool valid = true; long want = 0;
  switch (c.weighted({5, 2, 2})) {
    case 0: want = static_cast<long>(c.upto(4000000000ull)) - 2000000000l; num = std::to_string(want); break;
    case 1: want = c.upto(0xffffff); num = pbt::strf("0x%lx", want); break;
    default: want = c.upto(1000); num = std::to_string(want) + c.pick(std::vector<std::string>{"x", " 1", "-", ".5", "e", "=", "\xe4"}); valid = false;
  }
  std::string padded = std::string(c.range(0, 2), ' ') + num + std::string(c.range(0, 2), '\t');
  Status st = util::StringToLong(padded, &v);
  REQUIRE(st.ok() == valid, "StringToLong('%s') ok=%d", Esc(padded).c_str(), st.ok());
  if (valid) REQUIRE(v == want, "StringToLong('%s') = %ld", Esc(padded).c_str(), v);
}

PROPERTY("C30", format_function, 20000, 300000) {
  // Template of literal pieces and placeholders; the arguments themselves may contain placeholders
  int ph = c.range(0, 4); std::vector<std::string> lit;
  for (int i = 0; i <= ph; ++i) lit.push_back(Str(c, "ab {:%", 0, 5));
  std::string fmt; for (int i = 0; i <= ph; ++i) { fmt += lit[i]; if (i < ph) fmt += "{}"; }
  // Literals may not accidentally form a placeholder
  size_t cnt = 0; for (size_t p = fmt.find("{}"); p != std::string::npos; p = fmt.find("{}", p + 2)) ++cnt;
  if (static_cast<int>(cnt) != ph) throw pbt::Discard();
  std::string a0 = Str(c, "xy{}", 0, 6), a2 = Str(c, "{}q", 0, 4); int a1 = c.range(-1000, 1000); const char *a3 = "lit";
  std::vector<std::string> args{a0, std::to_string(a1), a2, a3};
  std::string exp; for (int i = 0; i <= ph; ++i) { exp += lit[i]; if (i < ph) exp += args[i]; }
  c.note("fmt '" + fmt + "' args '" + a0 + "', " + args[1] + ", '" + a2 + "'");
  if (ph >= 2) c.nontrivial();
  if (a0.find("{}") != std::string::npos && ph >= 2) c.label("placeholder-in-argument");
  std::string got = util::Format(fmt, a0, a1, a2, a3);
  REQUIRE(got == exp, "Format('%s') = '%s', expected '%s'", fmt.c_str(), got.c_str(), exp.c_str());
}

// ---------------------------------------------------------------- C21

namespace {
struct ConfLine { int kind; std::string key, value, text; };   // 0 kv 1 comment 2 blank 3 bad
}

PROPERTY("C21", configuration_model, 15000, 300000) {
  std::vector<std::string> keys{"fst", "nnet", "prior", "left_context", "chunk_size", "a.b", "x-1", "symbol_table"};
  int n = c.range(0, 9);
  std::map<std::string, std::string> model; bool bad = false; std::string text;
  std::string ws = " \t";
  for (int i = 0; i < n; ++i) {
    std::string line;
    int kind = c.weighted({14, 3, 2, 1});
    if (kind == 0) {
      std::string k = c.pick(keys), kk = k;
      if (c.chance(1, 4)) for (auto &ch : kk) if (c.flip() && ch >= 'a' && ch <= 'z') ch -= 32;
      std::string v;
      switch (c.weighted({4, 3, 3, 1, 1})) {
        case 0: v = Str(c, "abcXYZ019._/-#", 1, 10); break;
        case 1: v = std::to_string(static_cast<int>(c.upto(2000001)) - 1000000); break;
        case 2: v = (c.flip() ? "/" : "") + Str(c, "ab./", 1, 8); break;
        case 3: v = c.pick(std::vector<std::string>{"9999999999", "-99999999999999999999", "2147483648", "abc", "-", "x1", "+7", "007", "2147483647"}); break;
        default: v = std::string(c.pick(std::vector<int>{4090, 4096, 5000, 9000}), 'v'); break;
      }
      if (c.chance(1, 6)) v = Str(c, "ab", 1, 2) + " " + v;      // inner blank is kept
      if (c.chance(1, 10)) v += "\xe4\xbd\xa0";
      line = Str(c, ws, 0, 2) + kk + Str(c, ws, 0, 2) + "=" + Str(c, ws, 0, 2) + v + Str(c, ws, 0, 2);
      if (model.count(k)) c.label("duplicate-key");
      if (!bad) model[k] = v;
    } else if (kind == 1) {
      line = Str(c, ws, 0, 2) + "#" + Str(c, "ab= #", 0, 8);
    } else if (kind == 2) {
      line = Str(c, ws, 0, 3);
    } else {
      switch (c.upto(3)) {
        case 0: line = Str(c, "abc", 1, 6); break;
        case 1: line = "k=" + Str(c, "ab", 0, 2) + "=" + Str(c, "ab", 1, 2); break;
        case 2: line = "key="; break;
        default: line = "key= \t"; break;   // trimmed to an empty value
      }
      bad = true; c.label("malformed-line");
    }
    bool last = i == n - 1;
    text += line + ((last && c.chance(1, 3)) ? "" : (c.chance(1, 6) ? "\r\n" : "\n"));
  }
  std::string sub = c.chance(1, 3) ? "/sub.d" : ""; if (c.chance(1, 8)) { int deep = c.range(1, 9); for (int i = 0; i < deep; ++i) sub += "/" + std::string(c.pick(std::vector<int>{1, 5, 30, 60}), 'a' + i) + (i % 3 ? "" : "-1.x"); c.label("deep directory"); }
  std::string dir = c.dir() + sub;
  if (!sub.empty()) { if (system(("mkdir -p " + dir).c_str())) {} }
  std::string path = dir + "/m.conf"; std::string given = path;
  bool cwd = c.chance(1, 6), below = !cwd && !sub.empty() && c.chance(1, 4);
  if (cwd) { if (chdir(dir.c_str())) {} given = "m.conf"; c.label("no-directory-in-name"); }
  if (below) { if (chdir(c.dir().c_str())) {} given = (c.flip() ? "." + sub : sub.substr(1)) + "/m.conf"; c.label("relative name"); }
  gen::WriteFile(path, text);
  c.note("config '" + Esc(text, 300) + "'");
  Configuration conf; Status st = conf.Read(given);
  REQUIRE(st.ok() == !bad, "Read: ok=%d, %s line in the file; status '%s'", st.ok(), bad ? "a malformed" : "no malformed", st.what().c_str());
  if (bad) { c.nontrivial(); REQUIRE(st.what().find(given) != std::string::npos, "the error does not name the file: '%s'", st.what().c_str()); if ((cwd || below) && chdir("/")) {} return; }
  if (model.size() >= 2) c.nontrivial();
  std::string confdir = cwd ? "" : given.substr(0, given.size() - 6);
  for (const std::string &k : keys) {
    std::string q = k; if (c.chance(1, 3)) for (auto &ch : q) if (ch >= 'a' && ch <= 'z') ch -= 32;
    bool has = model.count(k); std::string v = has ? model[k] : "";
    std::string s = "unset"; Status gs = conf.GetString(q, &s);
    REQUIRE(gs.ok() == has, "GetString('%s') ok=%d", q.c_str(), gs.ok());
    if (has) REQUIRE(s == v, "GetString('%s') = '%s', file says '%s'", q.c_str(), Esc(s).c_str(), Esc(v).c_str());
    else REQUIRE(gs.what().find(k) != std::string::npos || gs.what().find(q) != std::string::npos, "error does not name the key: %s", gs.what().c_str());
    REQUIRE(conf.GetStringOrElse(q, "dflt") == (has ? v : "dflt"), "GetStringOrElse('%s')", q.c_str());
    std::string ep = !has ? "" : (v[0] == '/' ? v : confdir + v);
    std::string p = "unset"; Status ps = conf.GetPath(q, &p);
    REQUIRE(ps.ok() == has, "GetPath('%s') ok=%d", q.c_str(), ps.ok());
    if (has) REQUIRE(p == ep, "GetPath('%s') = '%s', expected '%s'", q.c_str(), Esc(p).c_str(), Esc(ep).c_str());
    REQUIRE(conf.GetPathOrElse(q, "dflt") == (has ? ep : "dflt"), "GetPathOrElse('%s')", q.c_str());
    // Integers: only values that are plainly numbers or plainly not
    int iv = -77; Status is = conf.GetInteger(q, &iv);
    bool digits = false; long long num = 0;
    if (has) {
      size_t b = (v[0] == '-' || v[0] == '+') ? 1 : 0;
      digits = v.size() > b && v.size() < 25;
      for (size_t i = b; i < v.size() && digits; ++i) if (v[i] < '0' || v[i] > '9') digits = false;
      if (digits) num = v.size() > 15 ? (v[0] == '-' ? LLONG_MIN : LLONG_MAX) : atoll(v.c_str());
    }
    if (!has) { REQUIRE(!is.ok(), "GetInteger of the missing key '%s'", q.c_str()); REQUIRE(conf.GetIntegerOrElse(q, 4242) == 4242, "GetIntegerOrElse('%s')", q.c_str()); }
    else if (digits && num > INT_MIN && num <= INT_MAX) {
      REQUIRE(is.ok() && iv == num, "GetInteger('%s') of '%s': ok=%d value %d", q.c_str(), v.c_str(), is.ok(), iv);
      REQUIRE(conf.GetIntegerOrElse(q, 4242) == num, "GetIntegerOrElse('%s') of '%s'", q.c_str(), v.c_str());
      c.label("integer");
    } else if ((digits && (num > INT_MAX || num < INT_MIN)) || !((v[0] >= '0' && v[0] <= '9') || v[0] == '-' || v[0] == '+')) {
      REQUIRE(!is.ok(), "GetInteger('%s') accepted '%s' as %d", q.c_str(), Esc(v).c_str(), iv);
      REQUIRE(conf.GetIntegerOrElse(q, 4242) == 4242 && conf.GetIntegerOrElse(q, -3) == -3, "GetIntegerOrElse('%s') of '%s' is not the default", q.c_str(), Esc(v).c_str()); c.label("not-an-integer");
    }
  }
  REQUIRE(conf.filename() == given, "filename()");
  if ((cwd || below) && chdir("/")) {}
}

// Many keys
PROPERTY("C21", configuration_large, 300, 5000) {
  int n = c.range(20, 1500); pbt::Rng g(c.seed()); std::map<std::string, std::string> m; std::string text; std::vector<std::string> keys; bool prefix = c.flip();
  for (int i = 0; i < n; ++i) {
    if (!g.upto(9)) { text += g.upto(1) ? "# comment = x = y\n" : "  \n"; continue; }
    std::string k; if (!keys.empty() && !g.upto(5)) k = keys[g.upto(keys.size() - 1)]; else { if (prefix) k = std::string(g.upto(30), 'k'); k += "k"; int len = g.range(1, 8); for (int j = 0; j < len; ++j) k += "abcdefghijklmnopqrstuvwxyz_.-0123456789"[g.upto(38)]; keys.push_back(k); }
    std::string v; if (g.upto(1)) v = std::to_string(g.range(-100000, 100000)); else { int len = g.range(1, 40); for (int j = 0; j < len; ++j) v += "abcXYZ/._-#"[g.upto(10)]; }
    std::string kk = k; if (!g.upto(3)) for (auto &ch : kk) if (ch >= 'a' && ch <= 'z') ch -= 32; m[k] = v; text += std::string(g.upto(2), ' ') + kk + (g.upto(1) ? " = " : "=") + v + (g.upto(6) ? "\n" : "\r\n");
  }
  std::string path = c.dir() + "/big.conf"; gen::WriteFile(path, text); c.note(pbt::strf("%zu bytes, %zu keys", text.size(), m.size())); if (m.size() > 10) c.nontrivial(); Configuration conf; Status st = conf.Read(path); REQUIRE(st.ok(), "Read: %s", st.what().c_str());
  for (auto &kv : m) { std::string v, p; REQUIRE(conf.GetString(kv.first, &v).ok() && v == kv.second, "GetString('%s') = '%s', file says '%s'", kv.first.c_str(), Esc(v).c_str(), Esc(kv.second).c_str()); REQUIRE(conf.GetPath(kv.first, &p).ok() && p == (kv.second[0] == '/' ? kv.second : c.dir() + "/" + kv.second), "GetPath('%s') = '%s'", kv.first.c_str(), p.c_str()); REQUIRE(conf.GetStringOrElse(kv.first + "~", "dflt") == "dflt", "a key the file does not have"); bool num = kv.second.find_first_not_of("-0123456789") == std::string::npos && kv.second.find('-', 1) == std::string::npos && kv.second != "-"; int iv = 0; if (num && kv.second.size() < 9 && (kv.second[0] != '0' || kv.second == "0")) REQUIRE(conf.GetInteger(kv.first, &iv).ok() && iv == atoi(kv.second.c_str()), "GetInteger('%s') = %d", kv.first.c_str(), iv); }
}

PROPERTY("C21", configuration_missing_file, 800, 5000) {
  Configuration conf; std::string p = c.dir() + "/none-" + Str(c, "abc", 0, 5);
  c.nontrivial(); c.note(p);
  Status st = conf.Read(p);
  REQUIRE(!st.ok() && st.what().find(p) != std::string::npos, "missing file: ok=%d '%s'", st.ok(), st.what().c_str());
}

// ---------------------------------------------------------------- C22

PROPERTY("C22", symbol_table_model, 6000, 80000) {
  int n = c.range(0, 30);
  std::vector<std::pair<std::string, long>> rows;
  std::set<std::string> seen;
  long maxid = c.weighted({6, 3, 1}) == 0 ? 40 : (c.flip() ? 3000 : 200000);
  bool with_bos = !c.chance(1, 20), with_eos = !c.chance(1, 20);
  std::vector<std::string> words;
  if (with_bos) words.push_back("<s>");
  if (with_eos) words.push_back("</s>");
  words.push_back("<eps>");
  for (int i = 0; i < n; ++i) {
    std::string w = c.weighted({8, 1}) == 0 ? Str(c, "abcdefgh<>#'\xe4\xbd\xa0=", 1, 7) : std::string(c.pick(std::vector<int>{300, 4080, 4095, 6000}), 'w') + Str(c, "xyz", 1, 3);
    words.push_back(w);
  }
  // order
  for (size_t i = words.size(); i > 1; --i) if (c.chance(1, 2)) std::swap(words[i - 1], words[c.upto(i - 1)]);
  bool sequential = c.flip();
  bool dup = c.chance(1, 5);
  std::set<long> used;
  for (size_t i = 0; i < words.size(); ++i) {
    long id = sequential ? static_cast<long>(i) : static_cast<long>(c.upto(maxid));
    if (!dup) { if (seen.count(words[i])) continue; while (used.count(id)) ++id; }
    seen.insert(words[i]); used.insert(id); rows.emplace_back(words[i], id);
  }
  int bad = c.weighted({14, 1, 1, 1, 1, 1, 1});
  std::string badline;
  switch (bad) {
    case 1: badline = "oneword"; break;
    case 2: badline = "three words 3"; break;
    case 3: badline = "word x12"; break;
    case 4: badline = "word " + std::to_string(-1 - static_cast<long>(c.flip() ? c.upto(3) : c.upto(5000))); break;
    case 5: badline = "word " + c.pick(std::vector<std::string>{"99999999999999999999", "2147483647", "2147483648", "4294967296", "4294967301", "-4294967295", "-2147483648", "9223372036854775807", "9223372036854775808", "18446744073709551617"}); break;
    case 6: badline = "word 12a"; break;
  }
  size_t badpos = bad ? c.upto(rows.size()) : rows.size() + 1;
  std::string text; std::vector<std::string> ls;
  for (size_t i = 0; i <= rows.size(); ++i) { if (i == badpos) ls.push_back(badline); if (i < rows.size()) ls.push_back(rows[i].first + " " + std::to_string(rows[i].second)); }
  bool final_nl = !c.chance(1, 3);
  for (size_t i = 0; i < ls.size(); ++i) text += ls[i] + ((i + 1 < ls.size() || final_nl) ? (c.chance(1, 20) ? "\r\n" : "\n") : "");
  std::string path = c.dir() + "/words.txt"; gen::WriteFile(path, text);
  c.note("'" + Esc(text, 300) + "'" + (bad ? " bad line: " + badline : ""));
  SymbolTable t; Status st = t.Read(path);
  bool ok = !bad && with_bos && with_eos;
  REQUIRE(st.ok() == ok, "Read: ok=%d (bad line '%s', <s> %d, </s> %d): %s", st.ok(), badline.c_str(), with_bos, with_eos, st.what().c_str());
  c.label(ok ? "valid" : "invalid"); if (!final_nl) c.label("no-final-newline");
  if (!ok) { c.nontrivial(); return; }
  if (rows.size() > 3) c.nontrivial();
  std::map<std::string, long> ids; std::map<long, std::string> names; long top = 0;
  for (auto &r : rows) { ids[r.first] = r.second; names[r.second] = r.first; top = std::max(top, r.second); }
  for (auto &kv : ids) REQUIRE(t.GetId(kv.first) == kv.second, "GetId('%s') = %d, file says %ld", Esc(kv.first).c_str(), t.GetId(kv.first), kv.second);
  for (auto &kv : names) REQUIRE(kv.second == t.Get(kv.first), "Get(%ld) = '%s', file says '%s'", kv.first, Esc(t.Get(kv.first)).c_str(), Esc(kv.second).c_str());
  for (long id = 0; id <= top && id < 100; ++id) if (!names.count(id)) REQUIRE(std::string(t.Get(id)).empty(), "Get(%ld) of an unused id is '%s'", id, t.Get(id));
  REQUIRE(t.bos_id() == ids["<s>"] && t.eos_id() == ids["</s>"], "bos_id %d eos_id %d", t.bos_id(), t.eos_id());
  std::string miss = "zz" + Str(c, "zy", 0, 4);
  REQUIRE(t.GetId(miss) == SymbolTable::kNotExist, "GetId of an absent word");
}

// Vocabularies of realistic size
PROPERTY("C22", symbol_table_large, 60, 900, 120) {
  int n = c.flip() ? c.range(60000, 140000) : c.range(1000, 20000); pbt::Rng g(c.seed()); bool sparse = c.flip(), shuffled = c.flip(); std::vector<std::string> w; for (int i = 0; i < n; ++i) { std::string s; int len = g.range(0, 10); for (int k = 0; k < len; ++k) s += "abcdefghij\xe4\xbd\xa0'"[g.upto(13)]; w.push_back(s + std::to_string(i)); }
  w[0] = "<eps>"; w[g.range(1, n / 2)] = "<s>"; w[g.range(n / 2 + 1, n - 1)] = "</s>"; std::vector<int> id(n); int at = 0; for (int i = 0; i < n; ++i) { id[i] = at; at += sparse ? g.range(1, 4) : 1; } std::vector<int> order(n); for (int i = 0; i < n; ++i) order[i] = i; if (shuffled) for (int i = n - 1; i > 0; --i) std::swap(order[i], order[g.upto(i)]);
  std::string text; for (int i : order) text += w[i] + " " + std::to_string(id[i]) + "\n"; std::map<int, std::string> last; if (c.chance(1, 3)) { int more = c.range(1, 200); for (int k = 0; k < more; ++k) { int i = g.range(0, n - 1); last[id[i]] = "again" + std::to_string(k); text += last[id[i]] + " " + std::to_string(id[i]) + "\n"; } c.label("repeated ids"); } gen::WriteFile(c.dir() + "/words.txt", text); c.note(pbt::strf("%d words, ids to %d%s", n, at, shuffled ? ", shuffled" : "")); c.nontrivial(); SymbolTable t; Status st = t.Read(c.dir() + "/words.txt"); REQUIRE(st.ok(), "Read: %s", st.what().c_str());
  for (auto &kv : last) REQUIRE(t.GetId(kv.second) == kv.first, "GetId('%s') = %d, file says %d", kv.second.c_str(), t.GetId(kv.second), kv.first);
  for (int i = 0; i < n; ++i) { const std::string &name = last.count(id[i]) ? last[id[i]] : w[i]; REQUIRE(name == t.Get(id[i]), "Get(%d) = '%s', file says '%s'", id[i], Esc(t.Get(id[i])).c_str(), Esc(name).c_str()); REQUIRE(t.GetId(w[i]) == id[i], "GetId('%s') = %d, file says %d", Esc(w[i]).c_str(), t.GetId(w[i]), id[i]); if (w[i] == "<s>") REQUIRE(t.bos_id() == id[i], "bos_id() = %d", t.bos_id()); if (w[i] == "</s>") REQUIRE(t.eos_id() == id[i], "eos_id() = %d", t.eos_id()); }
}
