// C34: any text at all assembles, or fails with an error that says where.
#include "asm_run.h"
#include "err_shape.h"

using pbt::Case;
using pbt::fmt;
using Files = std::vector<std::pair<std::string, std::string>>;

static std::string Show(const Files& fs) {
  std::string s;
  for (auto& f : fs) s += "--- " + f.first + "\n" + f.second + "\n";
  return s;
}

// Everything that can be asked of an assembled program.
static std::string Report(const nsasm::Assembler& a, const std::set<uint32_t>& at) {
  std::string s;
  for (auto& t : a.JumpTargets()) s += " " + t.first.ToString() + "=" + t.second.ToString();
  for (auto& t : a.JumpTargetReturnConventions()) s += " " + t.first.ToString() + (t.second.IsExitCall() ? ":noreturn" : t.second.YieldFlags() ? ":" + t.second.YieldFlags()->ToString() : ":");
  for (uint32_t x : at) {
    auto n = a.NameForAddress(run::Addr(x));
    if (n) s += fmt(" %06x:", x) + n->ToString();
  }
  return s;
}

static void Judge(Case& c, const Files& fs) {
  c.note(Show(fs));
  auto r = run::Files(fs);
  std::set<uint32_t> at;
  if (r.ok) {
    c.label("assembles");
    c.check(!r.twice, "a byte was written twice");
    for (auto& b : r.bytes) at.insert(b.first), at.insert(prog::Wrap(b.first, 1)), at.insert(prog::Wrap(b.first, -1));
    for (uint32_t x : at) c.check_f(r.as->Contains(run::Addr(x)) == (r.bytes.count(x) > 0), [&] { return fmt("Contains($%06x) is wrong", x); });
    Report(*r.as, at);
    c.evals(at.size());
  } else {
    err::Where w;
    c.check(err::Find(r.error, fs, &w), "the error has no location in these files: " + r.error);
    bool whole = r.error.find("Cyclic dependency") != std::string::npos || r.error.find("previously claimed memory") != std::string::npos;
    c.check(w.line || whole, "the error has no line: " + r.error);
    size_t p = r.error.find(": ");
    c.check(r.error.size() > p + 2, "there is no message: " + r.error);
    std::string kind = r.error.substr(p + 2), lower = kind;
    for (char& ch : lower) ch = tolower((unsigned char)ch);
    c.check(lower.find("logic error") == lower.npos, "it blames itself, not the program: " + r.error);
    for (size_t i = 0; i < kind.size(); ++i)
      if (!isalpha((unsigned char)kind[i]) && kind[i] != ' ') { kind.resize(i); break; }
    c.label(kind.empty() || !isupper((unsigned char)kind[0]) ? "fails: other" : "fails: " + kind.substr(0, 12));
  }
  // Lines of comments move the location of the error, and nothing else.
  Files more = fs;
  size_t k = c.draw(fs.size());
  int n = c.range(1, 12);
  if (c.coin(1, 100)) n = c.range(1, c.pick({300, 5000, 40000, 70000}));
  std::string pad;
  for (int i = 0; i < n; ++i) pad += i < 12 ? c.pick({"\n", "; x\n", "  \n", " ; .db 1\n"}) : i % 5 ? "\n" : "; x\n";
  more[k].second = pad + more[k].second;
  auto q = run::Files(more);
  c.check(q.ok == r.ok, "comment lines change the outcome: " + (r.ok ? q.error : r.error));
  if (r.ok) {
    c.check(q.bytes == r.bytes, "comment lines change the output: " + run::FirstDiff(q.bytes, r.bytes));
    c.check(Report(*q.as, at) == Report(*r.as, at), "comment lines change the reports");
  } else {
    err::Where a, b;
    err::Find(r.error, fs, &a);
    c.check(err::Find(q.error, more, &b) && a.path == b.path && b.line == (a.line && a.path == fs[k].first ? a.line + n : a.line), fmt("after %d more lines in ", n) + fs[k].first + ", " + r.error + " became " + q.error);
  }
}

// Lines that are each likely to be correct.
static void lines(Case& c) {
  Files fs;
  int n = c.range(1, 3);
  for (int k = 0; k < n; ++k) {
    std::string s;
    if (c.coin()) s += fmt(".module %s\n", c.pick({"foo", "bar", "m8x8_", "a_long_name"}));
    for (auto m = c.many(7, 40); m.more();) {
      switch (c.weighted({3, 3, 6, 2})) {
        case 0: s += fmt(".org $%06x\n", (unsigned)c.draw(0x1000000)); break;
        case 1: s += ".entry " + gen::mode_name(c) + "\n"; break;
        case 2: s += gen::line(c) + "\n"; break;
        default: s += c.pick({"rts\n", "{\n", "}\n", ".halt\n", "foo:\n", "bra foo\n", "bar: bne bar\n", "+\n", "-: bra -\n", "export baz: nop\n", ".db 1,2,3\n"});
      }
    }
    fs.push_back({fmt("t%d.asm", k), s});
  }
  Judge(c, fs);
  c.nontrivial(fs[0].second.size() > 30);
}

// Valid programs, damaged.
static void damaged(Case& c) {
  prog::Options o;
  o.body = 6;
  o.blocks = 2;
  prog::Gen g(c, o);
  prog::Program p = g.Make();
  Files fs = run::FileList(p, p.order);
  for (int hits = c.weighted({4, 2, 1, 1}) + 1; hits > 0; --hits) {
    std::string& s = fs[c.draw(fs.size())].second;
    std::vector<std::string> ls;
    for (size_t i = 0; i < s.size();) {
      size_t e = s.find('\n', i);
      if (e == s.npos) e = s.size();
      ls.push_back(s.substr(i, e - i));
      i = e + 1;
    }
    if (ls.empty()) continue;
    size_t i = c.draw(ls.size()), j = c.draw(ls.size());
    switch (c.draw(8)) {
      case 0: ls.erase(ls.begin() + i); break;
      case 1: ls.insert(ls.begin() + j, ls[i]); break;
      case 2: std::swap(ls[i], ls[j]); break;
      case 3: gen::damage(c, &ls[i]); break;
      case 4: ls[i] += " " + ls[j]; break;
      case 5: ls[i] += ":" + ls[j]; break;
      case 6: ls.resize(i); break;
      default:
        if (!ls[i].empty()) ls[i][c.draw(ls[i].size())] = c.draw(256);
    }
    s.clear();
    for (auto& l : ls) s += l + "\n";
  }
  Judge(c, fs);
  c.nontrivial(true);
}

static void bytes(Case& c) {
  static const char* tok[] = {"lda", "sta.b", "jsr", "bra", "rep", "#", "$10", "$1234", "%101", "5", "(", ")", "[", "]", ",", ":", "x", "y", "s", "a", "foo", "bar::baz", "@", "<", ">", "^", "+", "-", "*", "/", "{", "}", ".entry", ".org", ".db", ".dw", ".equ",
                              ".mode", ".begin", ".end", ".module", ".halt", ".remote", "m8x8", "m16", "emu", "unk", "yields", "noreturn", "export", ";", "rts", "++", "--", "::", "\t", "\r", "\"", "$", "0x", "0x1g", ".", "..", "4294967296", "2147483648", "$ffffff"};
  std::string s;
  for (auto m = c.many(25, 200); m.more();) {
    switch (c.weighted({16, 4, 1})) {
      case 0: s += c.pick(tok); s += c.coin(5, 6) ? " " : ""; break;
      case 1: s += "\n"; break;
      default: s += (char)c.draw(256);
    }
  }
  Files fs = {{"b.asm", s}};
  Judge(c, fs);
  c.nontrivial(s.size() > 20);
}

// One thing, very many times.
static const int kKinds = 18;
static const int kSizes[] = {40, 300, 3000, 30000};
static std::string times(int n, const std::string& s) {
  std::string r;
  for (int i = 0; i < n; ++i) r += s;
  return r;
}
static void big(Case& c) {
  int kind = c.index % kKinds, n = kSizes[c.index / kKinds % 4] + c.draw(40);
  std::string s = ".org $8000\n", t;
  switch (kind) {
    case 0: s += ".dl " + times(n, "(") + "1" + times(n, ")"); break;
    case 1: s += "lda " + times(n, "(") + "1"; break;
    case 2: s += "lda " + times(n, "[("); break;
    case 3: s += ".dw 1" + times(n, "+1"); break;
    case 4: s += "lda #1" + times(n, "*3-1"); break;
    case 5: s += ".db " + times(n, c.pick({"- ", "< ", "> ", "^ "})) + "1"; break;
    case 6: s += ".dl " + times(n, "1-(") + "1" + times(n, ")"); break;
    case 7: s += ".dl " + times(n, "(") + "1" + times(n, "/1)"); break;
    case 8: n = std::min(n, 3040); s += times(n, "{\n") + "x: .db 1\n" + times(n, "}\n"); break;
    case 9: n = std::min(n, 3040); s += times(n, ".begin\n"); break;
    case 10: s += ".db 1" + times(n, ",2"); break;
    case 11: s += times(n, "nop : ") + "rts"; break;
    case 12: s += times(n, "+ ") + "rts"; break;
    case 13: s += times(n, "x") + ": .dw " + times(n, "x"); break;
    case 14: s += ".db " + times(n, "7"); break;
    case 15: for (int i = 1; i <= n; ++i) s += fmt("n%d .equ %s\n", i, i == 1 ? "1" : fmt("n%d+1", i - 1).c_str()); s += fmt(".dw n%d", n); break;
    case 16: n = std::min(n, 3040); s += ".entry m8x8\n"; for (int i = 0; i < n; ++i) s += fmt("l%d bne l%d\n", i, i + 1); s += fmt("l%d rts", n); break;
    default: s += ".db 1 ;" + times(n, "(") + "\n" + times(n, "\n") + times(n, " ") + "bogus bogus"; break;
  }
  s += "\n";
  c.label(fmt("big %d", kind));
  Judge(c, {{"big.asm", s}});
  c.nontrivial(true);
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C34";
  cfg.rule = "lines: files of plausible lines; damaged: valid programs with one to four edits; bytes: tokens and raw bytes; big: one construct 40 to 30000 times over; non-trivial: any damaged program, or more than a line of text";
  cfg.tests = {{"lines", lines, 0, 3}, {"damaged", damaged, 0, 4}, {"bytes", bytes, 0, 2}, {"big", big, kKinds * 4, 0}};
  cfg.quick_cases = 30000;
  cfg.thorough_cases = 3000000;
  return pbt::main_(cfg, argc, argv);
}
