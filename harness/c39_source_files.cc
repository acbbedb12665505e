// C39: a source file is read as exactly its lines.
#include <sys/resource.h>
#include <sys/stat.h>
#include <dirent.h>
#include "asm_run.h"
#include "gen_text.h"

using namespace nsasm;
using pbt::Case;
using pbt::fmt;

static void Put(const std::string& path, const std::string& s) {
  FILE* f = fopen(path.c_str(), "wb");
  if (!f || fwrite(s.data(), 1, s.size(), f) != s.size() || fclose(f) != 0) abort();
}
static int OpenHandles() {
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}
// The lines of a file: what is between line feeds; nothing after the last one
// is no line.
static std::vector<std::string> Split(const std::string& s) {
  std::vector<std::string> r;
  size_t at = 0;
  while (at < s.size()) {
    size_t end = s.find('\n', at);
    if (end == s.npos) end = s.size();
    r.push_back(s.substr(at, end - at));
    at = end + 1;
  }
  return r;
}
static std::string Quote(const std::string& s) {
  std::string r;
  for (unsigned char ch : s.substr(0, 200)) r += ch >= ' ' && ch < 127 ? std::string(1, ch) : fmt("\\x%02x", ch);
  return r;
}
static std::string Text(Case& c) {
  std::string s;
  if (c.coin(1, 20)) return s;
  auto m = c.many(6, 60);
  while (m.more()) {
    switch (c.weighted({6, 2, 2, 1, 1, 1})) {
      case 0: s += c.pick({"lda #$10", " nop", "foo:", "; a comment", ".db 1,2,3", "\tjsr foo", "x .equ 5 ", ".org $8000", "rts ;"}); break;
      case 1: break;  // an empty line
      case 2: for (int n = c.range(1, 12); n > 0; --n) s += (char)c.draw(256); break;
      case 3: s += std::string(c.range(1, 9), c.pick({' ', '\t', '\r', '\0', 'a'})); break;
      case 4: s += std::string(1 << c.range(6, 17), c.pick({' ', ';', 'a', '0'})); break;
      default: s += "\xef\xbb\xbf nop";
    }
    s += c.pick({"\n", "\n", "\n", "\n", "\r\n", "\n\r", "\n\n", "", "\r", "\f", "\v", "\x1a"});
  }
  return s;
}

static void lines(Case& c) {
  std::string s = Text(c), path = c.scratch + c.pick({"/a.asm", "/with space.asm", "/x:1: y", "/.hidden", "/no_suffix", "/%s%n.asm"});
  Put(path, s);
  auto want = Split(s);
  c.note(fmt("%d bytes, %d lines: ", (int)s.size(), (int)want.size()) + Quote(s));
  c.nontrivial(want.size() >= 2);
  c.label(s.empty() ? "empty" : s.back() == '\n' ? "ends with a line feed" : "last line not ended");
  int before = OpenHandles();
  auto f = OpenFile(path);
  c.check(f.ok(), "cannot be opened");
  c.check(OpenHandles() == before, "the file was left open");
  c.check(f->path() == path, "path is " + f->path());
  std::vector<std::string> got;
  for (const std::string& line : *f) got.push_back(line);
  c.check(got.size() == want.size(), fmt("%d lines instead of %d", (int)got.size(), (int)want.size()));
  for (size_t i = 0; i < want.size(); ++i) {
    if (got[i] != want[i]) c.fail(fmt("line %d is '", (int)i + 1) + Quote(got[i]) + "' instead of '" + Quote(want[i]) + "'");
    if ((*f)[i] != want[i]) c.fail(fmt("[%d] differs", (int)i));
  }
  c.evals(want.size());
  // Reading the file again gives the same; a file with other lines or another
  // path is a different one.
  auto g = OpenFile(path);
  c.check(g.ok() && *g == *f, "the same file compares unequal");
  File copy = *f;
  c.check(copy == *f && copy.path() == path, "a copy differs");
  File moved = std::move(copy);
  c.check(moved == *f, "a moved file differs");
  Put(path, s + "x");
  auto h = OpenFile(path);
  c.check(h.ok() && *h != *f, "a changed file compares equal");
  std::string path2 = c.scratch + "/b.asm";
  Put(path2, s);
  auto k = OpenFile(path2);
  c.check(k.ok() && *k != *f && k->path() == path2, "a file with another path compares equal");
}

// How a program is stored makes no difference to what it means.
static void stored(Case& c) {
  std::vector<std::pair<std::string, std::string>> files;
  if (c.coin(3, 4)) {
    prog::Options o;
    o.blocks = 2;
    o.body = 8;
    prog::Gen g(c, o);
    prog::Program p = g.Make();
    files = run::FileList(p, p.order);
  } else {
    for (int k = c.range(1, 2); k > 0; --k) files.push_back({"f", Text(c)});
  }
  bool damaged = c.coin(1, 3);
  if (damaged) {
    std::string& t = files[c.draw(files.size())].second;
    std::string bad = c.pick({" frob\n", " lda (\n", "foo: foo: nop\n", " ?\n", ".db 1/0\n", " bra nowhere\n", "}\n", "\x01\n", " ora #1\n"});
    size_t at = t.empty() ? 0 : t.find('\n', c.draw(t.size()));
    at = at == t.npos || t.empty() ? t.size() : at + 1;
    if (at && t[at - 1] != '\n') bad = "\n" + bad;
    t.insert(at, bad);
  }
  // Short paths, so that errors can be compared.
  std::vector<std::string> stored;
  std::string how;
  for (size_t k = 0; k < files.size(); ++k) {
    std::string t;
    auto ls = Split(files[k].second);
    int style = c.weighted({1, 3, 1, 1, 1, 1});
    for (size_t i = 0; i < ls.size(); ++i) {
      t += ls[i];
      if (style == 2 && ls[i].find_first_not_of(" \t") == std::string::npos) t += " \t ";
      if (style == 1 || (style == 3 && i % 2)) t += '\r';
      if (style == 4) t += c.pick({" ", "\t", " ; note", ";"});
      if (i + 1 < ls.size() || style != 5) t += '\n';
    }
    if (style == 5) how += " (last line not ended)";
    static const char* names[] = {" LF", " CRLF", " blanks", " mixed", " trailing space and comments", " no final LF"};
    how += names[style];
    c.label(names[style] + 1);
    files[k].first = c.scratch + fmt("/s%d.asm", (int)k);
    Put(files[k].first, t);
    c.note(fmt("--- s%d.asm\n", (int)k) + files[k].second);
  }
  c.note("stored as:" + how + (damaged ? " (damaged)" : ""));
  auto mem = run::Files(files);
  std::vector<File> fs;
  for (auto& f : files) {
    auto o = OpenFile(f.first);
    c.check(o.ok(), "cannot be opened: " + f.first);
    fs.push_back(*std::move(o));
  }
  run::Sink sink;
  auto a = Assemble(fs, &sink);
  c.check(a.ok() == mem.ok, std::string(mem.ok ? "assembles from memory" : "does not assemble from memory (" + mem.error + ")") + " but from a file: " + (a.ok() ? "assembles" : a.error().ToString()));
  if (!a.ok()) {
    c.check(a.error().ToString() == mem.error, "from memory: " + mem.error + "\nfrom a file: " + a.error().ToString());
    c.label("refused");
  } else {
    if (sink.bytes != mem.bytes) c.fail("other output: " + run::FirstDiff(sink.bytes, mem.bytes));
    c.label("assembled");
  }
  c.nontrivial(mem.bytes.size() >= 4 || (damaged && !mem.ok));
}

static void unreadable(Case& c) {
  std::string path;
  switch (c.draw(6)) {
    case 0: path = c.scratch + fmt("/absent%d.asm", (int)c.draw(1000)); break;
    case 1: path = c.scratch + "/none/a.asm"; break;
    case 2: path = c.scratch; break;  // a directory
    case 3: path = c.scratch + "/" + std::string(c.range(256, 400), 'n'); break;
    case 4: path = c.scratch + "/loop"; unlink(path.c_str()); if (symlink("loop", path.c_str())) abort(); break;
    default: Put(c.scratch + "/file", "nop\n"); path = c.scratch + "/file/a.asm";
  }
  c.note(path.substr(c.scratch.size()));
  int before = OpenHandles();
  auto f = OpenFile(path);
  c.check(OpenHandles() == before, "a handle was left open");
  c.check(!f.ok(), "a file that cannot be read was opened");
  c.check(f.error().ToString().find(path) != std::string::npos, "the error does not name the path: " + f.error().ToString());
  // ... and the next file is not affected.
  Put(c.scratch + "/good.asm", "a\nb\n");
  auto g = OpenFile(c.scratch + "/good.asm");
  c.check(g.ok() && g->end() - g->begin() == 2, "a readable file is not read afterwards");
  c.nontrivial(true);
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C39";
  cfg.rule = "files of source lines, arbitrary bytes, long and empty lines with any line ends, read back line by line; programs stored with LF, CRLF, blank space, comments or an unended last line against the same text in memory; paths that cannot be read; non-trivial: two lines, some output, or an error";
  cfg.tests = {{"lines", lines, 0, 6}, {"stored", stored, 0, 3}, {"unreadable", unreadable, 0, 1}};
  cfg.quick_cases = 20000;
  cfg.thorough_cases = 600000;
  return pbt::main_(cfg, argc, argv);
}
