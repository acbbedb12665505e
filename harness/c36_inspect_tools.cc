// C36: dumb_disassemble, print_opcode_map and interactive_parse, run as programs.
#include "cpu.h"
#include "disasm_gen.h"
#include "gen_addr.h"
#include "gen_line.h"
#include "gen_text.h"
#include "tool_run.h"

using namespace dis;
using namespace romfile;
using namespace tool;

static std::string Low(std::string s) { for (auto& ch : s) ch = tolower(ch); return s; }

// "m8x16, c=0" -> flags; false if it is not a state.
static bool StateOf(const std::string& s, Flags* f) {
  std::string name = s;
  size_t comma = s.find(", c=");
  f->c = -1;
  if (comma != s.npos) { name = s.substr(0, comma); f->c = s[comma + 4] - '0'; }
  Mode3 m;
  if (!ref::ModeByName(name, &m)) return false;
  f->e = m.e, f->m = m.e == 1 ? 1 : m.m, f->x = m.e == 1 ? 1 : m.x;
  return true;
}
static bool Fits(const Flags& f, const cpu::Cpu& cpu) {
  return (f.e < 0 || f.e == cpu.e) && (f.m < 0 || f.m == cpu.m) && (f.x < 0 || f.x == cpu.x) && (f.c < 0 || f.c == cpu.carry);
}

static void dumb(Case& c) {
  ref::Map m = c.coin() ? ref::LoRom : ref::HiRom;
  uint32_t size = 0x10000;
  Bytes d = image(m, size, c.draw(50));
  Options o;
  o.routines = 3;
  o.wild = c.coin();
  if (m == ref::LoRom) o.bases = {0x018000, 0x01ffd0, 0x808100};
  else o.bases = {0xc08000, 0xc0fff0, 0x40c000};
  std::swap(o.bases[0], o.bases[c.draw(3)]);
  Gen g(c, o);
  Image im = g.Make();
  for (auto& e : im.bytes) {
    auto off = ref::RomOffset(e.first, m);
    if (off && *off < size && !(*off >= 0x7fb0 && *off < 0x7fe0) && !(*off >= 0xffb0 && *off < 0xffe0)) d[*off] = e.second;
  }
  auto at = [&](uint32_t a) {
    auto off = ref::RomOffset(a, m);
    return off && *off < size ? d[*off] : -1;
  };
  std::string path = c.scratch + "/d.sfc";
  write_file(path, {}, d);
  uint32_t start = c.coin(3, 4) ? im.routines[c.draw(im.routines.size())] : im.code[c.draw(im.code.size())];
  static const char* modes[] = {"unk", "emu", "native", "m8", "m16", "x8", "x16", "m8x8", "m8x16", "m16x8", "m16x16"};
  std::string mode = c.weighted({3, 2}) ? c.pick({"m8x8", "m16x16"}) : c.pick(modes);
  c.note(dis::Show(im) + fmt("\n%06x ", start) + mode + "\n");
  auto r = Run(c, "dumb_disassemble", {path, fmt("%x", start), mode});
  c.note(r.out);
  CheckEnds(c, r, "dumb_disassemble");
  std::istringstream in(r.out);
  std::string line;
  uint32_t pc = start;
  struct L { uint32_t pc; std::string text; Flags after; int op, width; uint32_t operand; bool jumped_in; };
  std::vector<L> ls;
  Flags state;
  StateOf(mode, &state);
  std::map<uint32_t, int> targets;   // local branch targets: the line they were last seen on
  bool ended = false, error = false;
  while (std::getline(in, line)) {
    if (line.rfind("End of subroutine.", 0) == 0 || line.rfind("Gap found here.", 0) == 0 || line.rfind("Earliest branch target", 0) == 0) {
      ended = true;
      unsigned t;
      if (line[0] == 'E' && line[1] == 'a') c.check_f(sscanf(line.c_str(), "Earliest branch target $%x", &t) == 1 && !targets.empty() && targets.begin()->first == t, [&] { return "wrong: " + line; });
      if (line[0] == 'G') c.check_f(sscanf(line.c_str(), "Gap found here.  Nearest local jump target is $%x", &t) == 1 && targets.count(t) && t > pc && targets.lower_bound(pc)->first == t, [&] { return "wrong: " + line; });
      if (line[0] == 'E' && line[1] == 'n') c.check_f(targets.lower_bound(pc) == targets.end(), [&] { return "there are later branch targets: " + line; });
      continue;
    }
    c.check_f(!ended && !error, [&] { return "text after the end: " + line; });
    unsigned a;
    c.check_f(sscanf(line.c_str(), "$%x - ", &a) == 1 && a == pc, [&] { return fmt("should be at $%06x: ", pc) + line; });
    int op = at(pc);
    if (line.find(" - ERROR: ") != line.npos) {
      error = true;
      // justified?
      bool need_m = op >= 0 && ref::Matrix()[op].mode == "#m" && state.m < 0, need_x = op >= 0 && ref::Matrix()[op].mode == "#x" && state.x < 0;
      bool cut = op < 0;
      if (op >= 0)
        for (int b = 0; b < ref::OperandBytes(ref::Matrix()[op].mode, state.m == 1, state.x == 1); ++b) cut = cut || at(Wrap(pc, 1 + b)) < 0;
      c.check_f(need_m || need_x || cut, [&] { return "unfounded error: " + line; });
      c.check(r.code() == 1, "exit status 0 after an error");
      c.label(cut ? "error: unreadable" : "error: width unknown");
      continue;
    }
    c.check(op >= 0, fmt("$%06x is unreadable", pc));
    const ref::Op& q = ref::Matrix()[op];
    // (a state without a known E has no name, but its M and X may be known)
    bool unknown = (q.mode == "#m" && state.m < 0) || (q.mode == "#x" && state.x < 0);
    c.check_f(!unknown || state.e < 0, [&] { return "the width is not known: " + line; });
    if (unknown) {
      size_t h = line.find("#$");
      int wide = h != line.npos && h + 6 <= line.size() && isxdigit((unsigned char)line[h + 4]);
      (q.mode == "#m" ? state.m : state.x) = !wide;
    }
    L l;
    l.pc = pc, l.op = op;
    l.width = ref::OperandBytes(q.mode, state.m == 1, state.x == 1);
    l.operand = 0;
    for (int b = 0; b < l.width; ++b) {
      c.check_f(at(Wrap(pc, 1 + b)) >= 0, [&] { return "the operand is unreadable: " + line; });
      l.operand |= at(Wrap(pc, 1 + b)) << (8 * b);
    }
    size_t dash = line.find(" - "), semi = line.find(" ; ", dash);
    c.check_f(semi != line.npos, [&] { return "no state in: " + line; });
    l.text = line.substr(dash + 3, semi - dash - 3);
    l.text.erase(0, l.text.find_first_not_of(' '));
    std::string tail = line.substr(semi + 3), to;
    size_t t = tail.find(" to $");
    if (t != tail.npos) { to = tail.substr(t + 4); tail = tail.substr(0, t); }
    c.check_f(StateOf(tail, &l.after), [&] { return "cannot read the state in: " + line; });
    c.check_f(l.text.rfind(q.mn, 0) == 0 && (l.text.size() == 3 || l.text[3] == ' ' || l.text[3] == '.'), [&] { return "the ROM has " + q.mn + " here: " + line; });
    uint32_t next = Wrap(pc, 1 + l.width);
    bool branch = q.mode == "r" || q.mn == "brl";
    c.check_f(branch == !to.empty(), [&] { return "branch target shown or not: " + line; });
    if (branch) {
      uint32_t want = Wrap(next, q.mode == "r" ? (int8_t)l.operand : (int16_t)l.operand);
      unsigned got;
      c.check_f(sscanf(to.c_str(), "$%x", &got) == 1 && got == want, [&] { return fmt("branches to $%06x: ", want) + line; });
      c.check_f((to.find("(new)") != to.npos) == !targets.count(want), [&] { return "new or not: " + line; });
      targets[want] = ls.size();
    }
    l.jumped_in = false;
    ls.push_back(l);
    pc = next;
    state = l.after;
    if (IsExit(q.mn)) {
      if (targets.count(pc)) {
        // goes on in the state of the branch that leads here; seen from below
        state = Flags();
        ls.back().jumped_in = true;
        // the listed state is not repeated: learn it from a processor below
        const L& from = ls[targets[pc]];
        Flags before;
        if (targets[pc] == 0) StateOf(mode, &before);
        else before = ls[targets[pc] - 1].jumped_in ? Flags{-2, -2, -2, -2} : ls[targets[pc] - 1].after;
        state = before;
        if (state.e == -2) { c.label("chained"); break; }
        if (ref::Matrix()[from.op].mn == "bcc") state.c = 0;
        if (ref::Matrix()[from.op].mn == "bcs") state.c = 1;
        c.label("went on at a branch target");
      }
    }
  }
  if (!error) c.check(r.code() == 0, "exit status 1 without an error");
  // The states, against a processor that goes straight through the text.
  for (int run = 0; run < 8 && !ls.empty(); ++run) {
    cpu::Cpu cpu(c);
    Flags f;
    StateOf(mode, &f);
    cpu.Enter({f.e, f.m, f.x});
    for (size_t i = 0; i < ls.size(); ++i) {
      const L& l = ls[i];
      const ref::Op& q = ref::Matrix()[l.op];
      c.check_f(ref::OperandBytes(q.mode, cpu.m == 1, cpu.x == 1) == l.width, [&] { return fmt("$%06x: ", l.pc) + l.text + fmt(" with m=%d x=%d", cpu.m, cpu.x); });
      auto st = cpu.Step(q.mn, l.operand, q.mode);
      if (st == cpu::Cpu::kStop) break;
      if (st == cpu::Cpu::kCall) cpu.Return(nullptr);
      if (st == cpu::Cpu::kBranch) {
        // to the statement after an exit, if that is where this leads
        uint32_t next = Wrap(l.pc, 1 + l.width), to = Wrap(next, q.mode == "r" ? (int8_t)l.operand : (int16_t)l.operand);
        size_t k = i;
        while (k < ls.size() && !(ls[k].jumped_in && Wrap(ls[k].pc, 1 + ls[k].width) == to && targets[to] == (int)i)) ++k;
        if (k + 1 >= ls.size()) break;
        i = k;
        c.label("ran into a branch target");
        continue;
      }
      c.check_f(Fits(l.after, cpu), [&] { return fmt("$%06x: ", l.pc) + l.text + fmt(": wrong state, the processor has e=%d m=%d x=%d c=%d", cpu.e, cpu.m, cpu.x, cpu.carry); });
    }
  }
  c.nontrivial(ls.size() >= 5);
}

// What a listed operand looks like, by mode.
static std::string Form(const std::string& mode) {
  if (mode == "i") return "";
  if (mode == "A") return "";
  std::string s;
  for (size_t i = 0; i < mode.size(); ++i) {
    char ch = mode[i];
    if (mode == "s") return "n,s";
    if (mode == "(s),y") return "(n,s),y";
    if (mode == "mv") return "#n,#n";
    if (mode == "r" || mode == "rl") return "n";
    if (ch == '#') return "#n";
    if (ch == 'd' || (ch == 'a') || (ch == 'l')) s += "n";
    else s += ch;
  }
  return s;
}

static void opcodes(Case& c) {
  auto r = Run(c, "print_opcode_map", {});
  CheckEnds(c, r, "print_opcode_map");
  c.check(r.code() == 0, "exit status");
  std::istringstream in(r.out);
  std::string line;
  for (int i = 0; i < 256; ++i) {
    c.check(bool(std::getline(in, line)), fmt("only %d lines", i));
    const ref::Op& o = ref::Matrix()[i];
    unsigned v;
    char mn[8];
    c.check_f(sscanf(line.c_str(), "%x %3s", &v, mn) == 2 && (int)v == i && Low(mn) == o.mn, [&] { return "opcode " + fmt("%02x", i) + " is " + o.mn + ": " + line; });
    // the operand with its numbers taken out
    std::string s = line.substr(line.find(mn) + 3), form;
    if (s.rfind(".b", 0) == 0) s = s.substr(2);
    for (size_t k = 0; k < s.size();) {
      if (s[k] == ' ' || s[k] == '@' || s[k] == '<') { ++k; continue; }
      if (s[k] == '$' || isdigit((unsigned char)s[k])) {
        ++k;
        while (k < s.size() && isxdigit((unsigned char)s[k])) ++k;
        form += 'n';
        continue;
      }
      form += tolower(s[k++]);
    }
    c.check_f(form == Form(o.mode), [&] { return "form " + form + ", want " + Form(o.mode) + ": " + line; });
  }
  c.check(!std::getline(in, line), "more than 256 lines");
  c.evals(256);
  c.nontrivial();
}

static void parse(Case& c) {
  std::string text;
  std::vector<std::string> lines;
  bool noise = c.coin(1, 3);
  for (int i = c.range(1, 6); i > 0; --i) {
    std::string l;
    if (noise) {
      for (int k = c.draw(30); k > 0; --k) l += (char)(c.coin(1, 12) ? c.range(1, 255) : (int)c.pick({' ', '.', '#', '$', 'a', '1', ':', 'x', '@', '(', ')', ',', '+', 'd', 'b', '%', '<', '[', ']', '{', '}'}));
      for (auto& ch : l) if (ch == '\n') ch = ' ';
    } else {
      l = gen::line(c);
      if (c.coin(1, 6)) gen::damage(c, &l);
      for (auto& ch : l) if (ch == '\n') ch = ' ';
    }
    lines.push_back(l);
    text += l + "\n";
  }
  c.note(text);
  std::string in = c.scratch + "/in.txt";
  Spit(in, text);
  auto r = Run(c, "interactive_parse", {}, in);
  CheckEnds(c, r, "interactive_parse");
  // Answers, one group for each prompt.
  std::vector<std::string> got;
  std::istringstream out(r.out);
  std::string l;
  while (std::getline(out, l)) {
    while (l.rfind("> ", 0) == 0) { got.push_back(""); l = l.substr(2); }
    if (!got.empty() && !l.empty()) got.back() += l + "\n";
  }
  c.check_f(got.size() >= lines.size(), [&] { return fmt("%zu answers for %zu lines", got.size(), lines.size()); });
  int good = 0;
  for (size_t i = 0; i < lines.size(); ++i) {
    std::vector<ref::Item> want;
    if (!ref::ParseText(lines[i], &want)) {
      c.check_f(!got[i].empty() && got[i].find("\n") == got[i].size() - 1, [&] { return "want one error for `" + lines[i] + "`: " + got[i]; });
      continue;
    }
    ++good;
    std::istringstream g(got[i]);
    for (auto& w : want) {
      c.check_f(bool(std::getline(g, l)), [&] { return "`" + lines[i] + "` is answered by " + got[i]; });
      if (w.label) {
        c.check_f(l.find(w.name) != l.npos && l.back() == ':' && (l.rfind("export ", 0) == 0) == w.exported, [&] { return "want label " + w.name + ": " + l; });
      } else {
        std::string s = l;
        s.erase(0, s.find_first_not_of(' '));
        c.check_f(l.rfind("    ", 0) == 0 && Low(s).rfind(Low(w.st.name), 0) == 0, [&] { return "want " + w.st.name + ": " + l; });
      }
    }
    c.check_f(!std::getline(g, l), [&] { return "`" + lines[i] + "` is answered by " + got[i]; });
  }
  c.nontrivial(good >= 1);
}

static void misuse(Case& c) {
  std::string rom = c.scratch + "/m.sfc";
  write_file(rom, {}, c.coin(1, 8) ? Bytes(c.draw(0x900)) : image(ref::LoRom, 0x10000, c.draw(50)));
  const std::vector<std::string> words = {rom, "8000", "m8x8", "", "zz", "ffffffff", "1000000", "-1", "unk", "emu", "M16X16", "m", "$8000", "0x8000", "7e0000", "fffe", c.scratch, "nothing.sfc", "ffffff"};
  std::vector<std::string> args;
  for (int i = 0, n = c.range(0, 5); i < n; ++i) args.push_back(i == 0 && c.coin(5, 6) ? rom : c.pick(words));
  for (auto& a : args) c.note(" '" + a + "'");
  auto r = Run(c, "dumb_disassemble", args);
  c.nontrivial(args.size() >= 2);
  CheckEnds(c, r, "dumb_disassemble");
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C36";
  cfg.rule = "dumb_disassemble on generated routines (listing and states against a processor model), print_opcode_map, interactive_parse on generated and random lines; non-trivial: five statements listed, one line accepted, or two arguments of a misuse";
  cfg.tests = {{"dumb", dumb, 0, 4}, {"opcodes", opcodes, 1}, {"parse", parse, 0, 3}, {"misuse", misuse, 0, 1}};
  cfg.quick_cases = 5000;
  cfg.thorough_cases = 300000;
  return pbt::main_(cfg, argc, argv);
}
