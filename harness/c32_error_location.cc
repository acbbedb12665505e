// C32: an assembly error names the file and line of the statement at fault.
#include "asm_run.h"
#include "err_shape.h"

using pbt::Case;
using pbt::fmt;
using prog::St;

static const char* kJunk[] = {" ?", " $", " %", " $1234567", " 99999999999", " \x01", " 0x", " 'a", " ~", " %2"};
static const char* kSyntax[] = {
    "frob 5", "lda", "sta #1", "inx 5", "lda (5", "ldx [5]", "jmp", "rts yields m8x8", "mvn 1", "lda #", "lda $10+", "bra $8000", "bra a::b", "bne (x)", ".frob", ".db", ".db 1,", ".org", ".equ",
    ".entry frob", ".mode", ".module 5", ".remote 5", "lda 5 5", "lda $10,q", "stz #5", "jsr #$8000", ".db 1 2", ".halt 5", "lda # #", ") nop", ", nop", "lda $10,,x", "nop nop", "lda 5", "export nop",
    "lda.b.w #1", "jsl $008000 yields", "jsl $008000 noreturn noreturn", ".db (1", "lda <", "pea", "lda [$10", "rep", "per 5", "brl 5", "wdm", ".begin 5", ".end 5", "lda ($10,x),y", "jmp ($8000),y"};

struct Fault { std::string kind; int mod = 0, st = 0; };

static bool IsData(const St& s) { return s.name == ".db" || s.name == ".dw" || s.name == ".dl"; }
static bool IsExit(const St& s) {
  static const std::set<std::string> t = {"rts", "rtl", "rti", "stp", "jmp", "bra", "brl", ".halt"};
  return t.count(s.name) || (!s.directive && s.conv == ref::C_noreturn);
}

// Makes statement i of module k faulty in the given way, if it can be.
static bool Break(Case& c, prog::Gen& g, int kind, int k, int i, Fault* f) {
  prog::Module& m = g.p.mod[k];
  St& s = m.st[i];
  auto text = [&] { return g.StText(s); };
  switch (kind) {
    case 0: s.raw = text() + c.pick(kJunk); f->kind = "lexical"; return true;
    case 1: s.raw = c.pick(kSyntax); f->kind = "syntax"; return true;
    case 2: {
      std::vector<std::pair<std::string, bool>> names;
      for (int j = 0; j < i; ++j)
        for (auto& l : m.st[j].labels) {
          int there = l.exported || m.st[j].scopes.empty() ? -1 : m.st[j].scopes.back();
          if (there == -1) names.push_back({l.name, true});
          else if (!s.scopes.empty() && s.scopes.back() == there) names.push_back({l.name, false});
        }
      if (names.empty()) return false;
      auto& n = c.pick(names);
      s.labels.insert(s.labels.begin() + c.draw(s.labels.size() + 1), {n.first, n.second});
      f->kind = "label twice";
      return true;
    }
    case 3:
      for (int j = 0; j < i; ++j)
        if (m.st[j].name == ".module") { s.raw = text() + " : .module " + c.pick({"zork", "alpha"}); f->kind = "module twice"; return true; }
      return false;
    case 4:
      if (!s.scopes.empty() || s.name == ".begin") return false;
      s.raw = text() + c.pick({" : .end", " }", " : }"});
      f->kind = "extra end";
      return true;
    case 5:
      if (!s.scopes.empty() || s.name == ".begin") return false;
      s.raw = text() + c.pick({" : .begin", " {", " : {"});
      f->kind = "extra begin";
      return true;
    case 6:
      i = m.st.size() - 1;
      f->st = i;
      m.st[i].raw = g.StText(m.st[i]) + c.pick({" : .entry m8x8 : nop", " : .entry unk", " : .entry m8x8 : php : lda $10", " : .entry m8x8 : past_q1: bra past_q2 : past_q2: nop"});
      f->kind = "runs past the end";
      return true;
    case 7:
      if (!IsExit(s) && !IsData(s)) return false;
      s.raw = text() + c.pick({" : inx", " : ora #$10", " : rts", " : past_q1: bra past_q1", " : jsr $8000"});
      f->kind = "unreachable";
      return true;
    case 8:
      if (!s.before.live || s.directive || IsExit(s) || s.name == ".halt") return false;
      if (c.coin()) s.raw = text() + c.pick({" : .db 1", " : .dw $8000", " : .dl 1,2", " : .org $123456"});
      else if (s.no_label) return false;
      else s.raw = c.pick({".db 1 : ", ".org $8000 : "}) + text();
      f->kind = "runs into data";
      return true;
    case 9: {
      if (!s.before.live || s.directive || s.no_label) return false;
      std::string bad;
      if (c.coin()) bad = s.before.m < 0 ? "ora #1" : s.before.m ? "ora.w #1" : "ora.b #1";
      else bad = s.before.x < 0 ? "cpx #1" : s.before.x ? "cpx.w #1" : "cpx.b #1";
      s.raw = bad + " : " + text();
      f->kind = "wrong width";
      return true;
    }
    case 10:
      if (s.addressed || s.name == ".org") return false;
      s.raw = text() + c.pick({" : .db 1", " : .dl 5,5"});
      f->kind = "no address";
      return true;
    case 11:
      if (s.name != ".org") return false;
      s.raw = c.pick({".org 16777216", ".org -1", ".org foo", ".org $10/0", ".org 5-6", ".org alpha::foo", ".org $7fffff*300"});
      f->kind = "bad org";
      return true;
    case 12: {
      if (s.name != ".equ") return false;
      std::vector<std::string> bad = {".equ 1/0", ".equ 5/(2-2)", ".equ $123456/<$100"};
      for (size_t j = i; j < m.st.size(); ++j)
        if (m.st[j].name == ".equ")
          for (auto& l : m.st[j].labels)
            if (g.FindLocal(k, s, l.name) == (int)j) bad.push_back(".equ 1+" + l.name);
      s.raw = c.pick(bad);
      f->kind = s.raw.find('/') == s.raw.npos ? "equ too early" : "equ by zero";
      return true;
    }
    case 13: {
      std::string bad = c.pick({"undefd_q", "nomod::x", "1/0", "1+undefd_q", "<nomod::x", "$12 * (undefd_q)", "5/(1-1)", "alpha::undefd_q"});
      f->kind = "bad operand";
      if (IsData(s)) {
        size_t at = c.draw(s.list.size());
        s.raw = s.name;
        for (size_t j = 0; j < s.list.size(); ++j) s.raw += (j ? ", " : " ") + (j == at ? bad : "1");
        return true;
      }
      if (s.directive || s.form != ref::F_dir || ref::IsBranch(s.name) || s.a->width != 2) return false;
      s.raw = s.name + s.suffix + " " + c.pick({"undefd_q", "nomod::x", "$1234/0", "$1234 / ($10-$10)", "1+undefd_q", "alpha::undefd_q"}) + g.ConvText(s);
      return true;
    }
    case 14:
      if (s.name != ".remote") return false;
      s.raw = c.pick({".remote -1 m8x8", ".remote undefd_q m8x8", ".remote 16777216 m8x8", ".remote 1/0 unk"});
      f->kind = "bad remote";
      return true;
    default:
      if (s.directive || !ref::IsBranch(s.name) || s.name == "per") return false;
      s.raw = s.name + " undefd_q";
      f->kind = "bad branch";
      return true;
  }
}

static void one_fault(Case& c) {
  prog::Options o;
  o.body = 8;
  o.blocks = 3;
  if (c.coin(1, 25)) o.blocks = 12, o.body = 40;
  prog::Gen g(c, o);
  Fault f;
  g.before_text = [&] {
    int kind = c.draw(16);
    for (int t = 0; t < 40; ++t) {
      f.mod = c.draw(g.p.mod.size());
      f.st = c.draw(g.p.mod[f.mod].st.size());
      if (Break(c, g, t < 30 ? kind : 0, f.mod, f.st, &f)) return;
    }
    f.kind = "";
  };
  prog::Program p = g.Make();
  if (f.kind.empty()) return;
  const St& s = p.mod[f.mod].st[f.st];
  c.note(prog::Listing(p));
  c.note("fault: " + f.kind + fmt(" at line %d of ", s.line) + p.mod[f.mod].path);
  c.label(f.kind);
  int more = 0;
  if (c.coin(1, 40)) {  // far down in a long file
    more = c.range(1, c.pick({300, 5000, 40000, 70000}));
    std::string pad;
    for (int i = 0; i < more; ++i) pad += i % 7 ? "\n" : "; filler\n";
    p.mod[f.mod].text = pad + p.mod[f.mod].text;
    c.note(fmt("after %d more lines", more));
    c.label("far down");
  }
  auto r = run::Program(p);
  c.check(!r.ok, "a program with a fault was assembled");
  std::string want = p.mod[f.mod].path + fmt(":%d: ", s.line + more);
  c.check(r.error.compare(0, want.size(), want) == 0, "the error should be at " + want + " but is: " + r.error);
  c.check(r.error.size() > want.size(), "no message");
  c.nontrivial(s.line > 1 && p.mod.size() * p.mod[f.mod].st.size() > 5);
  if (p.mod.size() > 1) c.label("several files");
}

// Blocks of data over one another.
static void overlaps(Case& c) {
  int files = c.range(1, 2);
  struct Item { int file, line; uint32_t at; int n; };
  std::vector<Item> items;
  std::vector<std::pair<std::string, std::string>> fs;
  uint32_t base = c.coin(1, 3) ? 0x01fff0 : 0x018000;
  for (int k = 0; k < files; ++k) {
    std::string s;
    int line = 1;
    for (int b = c.range(1, 4); b > 0; --b) {
      for (int e = c.coin(1, 3) ? c.range(1, 5) : 0; e > 0; --e) s += "; filler\n", ++line;
      uint32_t pc = prog::Wrap(base, c.draw(48));
      s += fmt(".org $%06x\n", pc);
      ++line;
      for (int d = c.range(1, 4); d > 0; --d) {
        int w = c.range(1, 3), n = c.range(1, 3);
        s += w == 1 ? ".db" : w == 2 ? ".dw" : ".dl";
        for (int i = 0; i < n; ++i) s += i ? ",1" : " 1";
        s += "\n";
        items.push_back({k, line, pc, w * n});
        ++line;
        pc = prog::Wrap(pc, w * n);
      }
    }
    fs.push_back({fmt("f%d.asm", k), s});
    c.note("--- " + fs.back().first + "\n" + s);
  }
  auto over = [&](const Item& a, const Item& b) {
    for (int i = 0; i < a.n; ++i)
      for (int j = 0; j < b.n; ++j)
        if (prog::Wrap(a.at, i) == prog::Wrap(b.at, j)) return true;
    return false;
  };
  std::set<std::pair<int, int>> within;
  bool across = false;
  for (size_t i = 0; i < items.size(); ++i)
    for (size_t j = 0; j < i; ++j)
      if (over(items[i], items[j])) {
        if (items[i].file == items[j].file) within.insert({items[i].file, items[i].line});
        else across = true;
      }
  auto r = run::Files(fs);
  c.nontrivial(!within.empty() || across);
  c.check(r.ok == (within.empty() && !across), r.ok ? "assembled" : "refused: " + r.error);
  c.label(!within.empty() ? "within a file" : across ? "across files" : "none");
  if (r.ok) return;
  err::Where w;
  c.check(err::Find(r.error, fs, &w), "no location: " + r.error);
  int k = w.path[1] - '0';
  if (!w.line) c.check(across, "only a file is named: " + r.error);
  else c.check(within.count({k, w.line}) || (across && within.empty()), "not at a statement that overlaps an earlier one: " + r.error);
}

// Branches too far, or with targets in another bank.
static void branches(Case& c) {
  int n = c.range(3, 30);
  struct Br { int line; int target; bool wide; uint32_t pc; };
  std::vector<Br> br;
  std::vector<uint32_t> at(n);
  std::string s;
  int line = 1;
  uint32_t pc = c.pick({0x018000, 0x01ff80, 0x7e0000});
  s += fmt(".org $%06x\n.entry m8x8\n", pc);
  line += 2;
  for (int i = 0; i < n; ++i) {
    at[i] = pc;
    s += fmt("l%d:", i);
    if (c.coin(1, 3)) s += "\n", ++line;
    switch (c.weighted({4, 3, 1})) {
      case 0:
        for (int k = c.range(1, c.coin(1, 6) ? 30 : 3); k > 0; --k) s += " lda #1 :", pc = prog::Wrap(pc, 2);
        s += " nop\n";
        pc = prog::Wrap(pc, 1);
        break;
      case 1: {
        int t = c.coin(1, 3) ? (int)c.draw(n) : std::min(n - 1, std::max(0, i - 6 + (int)c.draw(13)));
        br.push_back({line, t, false, pc});
        s += fmt(" %s l%d\n", c.pick({"bne", "bcc", "bvs"}), t);
        pc = prog::Wrap(pc, 2);
        break;
      }
      default:
        s += " jsr $8000\n";
        pc = prog::Wrap(pc, 3);
    }
    ++line;
    if (c.coin(1, 12)) s += "\n", ++line;
  }
  s += " rts\n";
  std::set<int> far;
  for (auto& b : br) {
    int d = (int16_t)(uint16_t)(at[b.target] - (b.pc + 2));
    if (d < -128 || d > 127) far.insert(b.line);
  }
  c.note(s);
  auto r = run::Files({{"b.asm", s}});
  c.check(r.ok == far.empty(), r.ok ? "assembled with a branch out of range" : "refused: " + r.error);
  c.nontrivial(!far.empty() && br.size() > far.size());
  c.label(far.empty() ? "in range" : "too far");
  if (r.ok) return;
  err::Where w;
  c.check(err::Find(r.error, {{"b.asm", s}}, &w) && far.count(w.line), "not at a branch that is too far: " + r.error);
}

// A name that two files define.
static void twice_global(Case& c) {
  int n = c.range(2, 4);
  int a = c.draw(n), b = c.draw(n - 1);
  if (b >= a) ++b;
  bool module = c.coin();
  std::vector<std::pair<std::string, std::string>> fs;
  std::map<std::string, int> lines;
  for (int k = 0; k < n; ++k) {
    std::string s;
    int line = 1;
    auto fill = [&] { for (int i = c.draw(4); i > 0; --i) s += "; filler\n", ++line; };
    if (module) fill(), s += ".module shared\n", ++line;
    fill();
    s += fmt(".org $%06x\n", 0x8000 + 0x1000 * k);
    ++line;
    for (int i = c.draw(3); i > 0; --i) s += fmt("own_%d_%d: .db 1\n", k, i), ++line;
    fill();
    if (k == a || k == b) {
      bool scope = c.coin(1, 3), equ = c.coin(1, 3);
      if (scope) s += ".begin\n", ++line;
      s += scope ? "export the_name:" : "the_name:";
      if (c.coin(1, 3)) s += "\n", ++line;
      s += equ ? " .equ 5\n" : " .dw 5\n";
      lines[fmt("g%d.asm", k)] = line;
      ++line;
      if (scope) s += ".end\n", ++line;
    }
    for (int i = c.draw(3); i > 0; --i) s += fmt("more_%d_%d: .db 1\n", k, i), ++line;
    fs.push_back({fmt("g%d.asm", k), s});
    c.note("--- " + fs.back().first + "\n" + s);
  }
  auto r = run::Files(fs);
  c.check(!r.ok, "a name is defined twice, but the program assembles");
  err::Where w;
  c.check(err::Find(r.error, fs, &w) && w.line && lines.count(w.path) && lines[w.path] == w.line, "not at a definition: " + r.error);
  for (auto& l : lines)
    if (l.first != w.path) c.check(r.error.find(fmt("%s:%d", l.first.c_str(), l.second)) != r.error.npos, "the other definition is not named: " + r.error);
  c.check(r.error.find("the_name") != r.error.npos, "the name is not in the message: " + r.error);
  c.nontrivial(true);
}

// .equ definitions that need one another, or something that does not exist.
static void stuck(Case& c) {
  int n = c.range(2, 5);
  std::vector<std::vector<int>> needs(n);  // -1: does not exist
  std::vector<std::pair<std::string, std::string>> fs;
  for (int k = 0; k < n; ++k) {
    std::string s = fmt(".module m%d\nv: .equ 1", k);
    for (int i = c.draw(3); i > 0; --i) {
      int d = c.coin(1, 6) ? -1 : (int)c.draw(n);
      if (d == k) d = (k + 1) % n;
      needs[k].push_back(d);
      s += d < 0 ? c.pick({" + m0::nothing", " + nothing", " + zork::v"}) : fmt(" + m%d::v", d);
    }
    fs.push_back({fmt("e%d.asm", k), s + "\n"});
    c.note("--- " + fs.back().first + "\n" + fs.back().second);
  }
  std::vector<bool> done(n);
  for (int pass = 0; pass < n; ++pass)
    for (int k = 0; k < n; ++k) {
      bool all = true;
      for (int d : needs[k]) all = all && d >= 0 && done[d];
      if (all) done[k] = true;
    }
  bool ok = std::count(done.begin(), done.end(), true) == n;
  auto r = run::Files(fs);
  c.check(r.ok == ok, r.ok ? "assembled" : "refused: " + r.error);
  c.nontrivial(!ok);
  c.label(ok ? "no cycle" : "stuck");
  if (r.ok) return;
  err::Where w;
  c.check(err::Find(r.error, fs, &w) && !done[w.path[1] - '0'], "not at a file with such a definition: " + r.error);
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C32";
  cfg.rule = "one_fault: valid programs of up to three files with one fault of sixteen kinds put into one statement; overlaps, branches, twice_global, stuck: small programs in which any of several statements may be at fault; non-trivial: the fault is not in the first line, or there is more than one candidate";
  cfg.tests = {{"one_fault", one_fault, 0, 6}, {"overlaps", overlaps, 0, 1}, {"branches", branches, 0, 1}, {"twice_global", twice_global, 0, 1}, {"stuck", stuck, 0, 1}};
  cfg.quick_cases = 18000;
  cfg.thorough_cases = 2000000;
  return pbt::main_(cfg, argc, argv);
}
