// C25: in a program that assembles, every instruction runs at the width it was
// assembled for.
#include "asm_run.h"
#include "cpu.h"

using namespace nsasm;
using pbt::Case;
using pbt::fmt;

struct Line {
  std::string mn, suffix, operand;   // operand text; "%" in it is a branch target
  bool directive = false;
  int target = -1;
  ref::Mode3 mode{-1, -1, -1};       // .mode, .entry, yields
  std::string mode_name;
  ref::Conv conv = ref::C_default;
  bool exit = false, branch = false;
};

static const char* kModes[] = {"unk", "emu", "native", "m8", "m16", "x8", "x16", "m8x8", "m8x16", "m16x8", "m16x16"};

struct Maker {
  Case& c;
  std::vector<Line> p;
  void add(const std::string& mn, const std::string& operand = "") {
    Line l;
    l.mn = mn;
    l.operand = operand;
    p.push_back(l);
  }
  void mode(Line* l) {
    l->mode_name = c.weighted({3, 1}) ? "unk" : c.pick(kModes);
    ref::ModeByName(l->mode_name, &l->mode);
  }
  void dir(const std::string& name) {
    Line l;
    l.directive = true;
    l.mn = name;
    if (name == ".entry" || name == ".mode") mode(&l);
    l.exit = name == ".halt";
    p.push_back(l);
  }
  void branch(const std::string& mn) {
    add(mn, "%");
    p.back().branch = true;
    p.back().exit = mn == "bra" || mn == "brl";
  }
  void suffix() { if (c.coin(1, 5)) p.back().suffix = c.coin() ? ".b" : ".w"; }
  void repsep(const char* mn) {
    static const char* bits[] = {"$30", "$20", "$10", "$31", "$01", "$00", "$ff", "$cf", "<here", "48", "$20+$10"};
    add(mn, std::string("#") + c.pick(bits));
  }
  void step() {
    switch (c.weighted({12, 4, 8, 3, 3, 5, 4, 4, 4, 4, 2, 3, 2, 1, 2, 4, 4})) {
      case 0: add(c.pick({"lda", "adc", "cmp", "and", "bit", "sub", "add"}), "#5"); suffix(); break;
      case 1: add(c.pick({"ldx", "ldy", "cpx", "cpy"}), "#5"); suffix(); break;
      case 2: repsep(c.coin() ? "rep" : "sep"); break;
      case 3: add(c.coin() ? "clc" : "sec"); break;
      case 4: if (c.coin(3, 4)) add(c.coin() ? "clc" : "sec"); add("xce"); break;
      case 5: branch(c.pick({"bcc", "bcs", "beq", "bne", "bvs"})); break;
      case 6: add("php"); break;
      case 7: add("plp"); break;
      case 8: add(c.pick({"pha", "phx", "phy", "phb", "phk", "phd"})); break;
      case 9: add(c.pick({"pla", "plx", "ply", "plb", "pld"})); break;
      case 10: add(c.pick({"pea", "pei", "per"}), ""); p.back().operand = p.back().mn == "pea" ? "$1234" : p.back().mn == "pei" ? "$12" : "here"; if (p.back().mn == "pea") p.back().operand = "#$1234"; break;
      case 11: {
        add(c.coin() ? "jsr" : "jsl");
        p.back().operand = p.back().mn == "jsr" ? "$1234" : "$123456";
        int k = c.weighted({3, 3, 1});
        if (k == 1) { p.back().conv = ref::C_yields; mode(&p.back()); }
        if (k == 2) { p.back().conv = ref::C_noreturn; p.back().exit = true; }
        break;
      }
      case 12: add(c.pick({"brk", "cop", "txs", "tcs", "wai", "wdm"})); if (strchr("bc", p.back().mn[0]) || p.back().mn == "wdm") p.back().operand = "#5"; break;
      case 13: dir(c.pick({".mode", ".mode", ".entry", ".equ", ".db", ".begin"})); break;
      case 14: {
        std::string mn = c.pick({"rts", "rtl", "rti", "stp", "jmp", "bra", "brl", ".halt"});
        if (mn[0] == '.') dir(mn);
        else if (mn[0] == 'b') branch(mn);
        else { add(mn, mn == "jmp" ? "$1234" : ""); p.back().exit = true; }
        break;
      }
      case 15: if (c.coin(1, 4)) { add(c.coin(3, 4) ? "sta" : "lda", fmt("%d,s", (int)c.draw(6))); break; } add(c.pick({"sta", "lda", "inc", "asl"}), "$12"); suffix(); break;
      default: add(c.pick({"tax", "txa", "tay", "inx", "dey", "nop", "asl", "xba", "tcd", "tsx"})); if (ref::WidthM().count(p.back().mn) || ref::WidthX().count(p.back().mn)) suffix();
    }
  }
  // Two paths that meet again, with related work on both of them.
  void arm(const char* push) {
    if (c.coin(2, 3)) repsep(c.coin() ? "rep" : "sep");
    if (c.coin(1, 6)) step();
    if (push) add(push);
    if (c.coin(1, 8)) step();
    if (c.coin(1, 3)) repsep(c.coin() ? "rep" : "sep");
  }
  void diamond() {
    const char* push = c.weighted({1, 4}) ? c.pick({"php", "php", "pha", "phx", "phb"}) : nullptr;
    if (c.coin(2, 3)) { add(c.coin(1, 4) ? "sec" : "clc"); add("xce"); }
    branch(c.pick({"bcc", "bcs", "beq", "bne", "bvs"}));
    size_t head = p.size() - 1;
    arm(push);
    size_t over = 0;
    if (c.coin(3, 4)) {
      branch(c.pick({"bra", "bra", "brl"}));
      over = p.size() - 1;
      p[head].target = p.size();
      arm(push && c.coin(1, 12) ? nullptr : push);
      p[over].target = p.size();
    } else p[head].target = p.size();
    if (c.coin(1, 2)) repsep(c.coin() ? "rep" : "sep");
    if (push && c.coin(9, 10)) add(std::string("pl") + push[2]);
    if (c.coin(3, 4)) add("lda", "#5");
    if (c.coin(3, 4)) add("ldx", "#5");
    if (p.size() <= p[head].target || (over && p.size() <= p[over].target)) add("nop");
  }
  // A path back.
  void loop() {
    size_t top = p.size();
    arm(c.coin(1, 4) ? c.pick({"php", "pha", "plp", "pla"}) : nullptr);
    if (p.size() == top) add("nop");
    branch(c.pick({"bcc", "bcs", "beq", "bne"}));
    p.back().target = top;
    if (c.coin()) add("lda", "#5");
  }
  // Common idioms, so that programs say something more than noise.
  void idiom() {
    switch (c.draw(7)) {
      case 6: {  // the carry over something that may change it, into E
        add(c.coin() ? "clc" : "sec");
        std::string mn = c.pick({"cop", "brk", "jsr", "jsl", "cmp", "asl", "adc", "plp", "rol", "cpx"});
        add(mn, mn == "plp" ? "" : mn == "jsr" ? "$1234" : mn == "jsl" ? "$123456" : mn == "cop" || mn == "brk" ? "#5" : "$12");
        add("xce");
        if (c.coin(2, 3)) { repsep(c.coin(3, 4) ? "rep" : "sep"); add(c.coin() ? "lda" : "ldx", "#5"); }
        break;
      }
      case 0: add("php"); repsep(c.coin() ? "rep" : "sep"); step(); add("plp"); break;
      case 5: add("php"); if (c.coin()) add(c.pick({"phb", "pha", "phd"})); add("lda", "#5"); add("sta", fmt("%d,s", c.range(0, 4))); if (c.coin()) add(c.pick({"plb", "pla", "pld"})); add("plp"); add("lda", "#5"); break;
      case 1: add("clc"); add("xce"); add("rep", "#$30"); break;
      case 2: add("sec"); add("xce"); break;
      case 3: { const char* r = c.pick({"pha", "phx", "phy"}); add(r); step(); add(std::string("pl") + r[2]); break; }
      default: { branch(c.pick({"bcc", "bcs", "beq"})); add(c.coin() ? "clc" : "sec"); add("xce"); }
    }
  }
  std::vector<Line> Make() {
    dir(".entry");
    for (auto more = c.many(14, 50); more.more();) {
      if (p.back().exit && c.coin(2, 3)) dir(".entry");
      if (c.coin(1, 4)) idiom();
      else if (c.coin(1, 6)) diamond();
      else if (c.coin(1, 12)) loop();
      else step();
    }
    if (!p.back().exit) { add("rts"); p.back().exit = true; }
    if (c.coin(1, 30)) p.pop_back();
    int depth = 0;
    for (auto& l : p) if (l.mn == ".begin") ++depth;
    while (depth--) dir(".end");
    // Branches: preferably to code that is not reached otherwise.
    std::vector<int> need;
    for (size_t i = 1; i < p.size(); ++i) if (p[i - 1].exit && p[i].mn != ".entry" && !(p[i].directive && p[i].mn == ".end")) need.push_back(i);
    std::vector<int> br;
    for (size_t i = 0; i < p.size(); ++i) if (p[i].branch && p[i].target < 0) br.push_back(i);
    for (int i : br) {
      if (!need.empty() && c.coin(4, 5)) {
        int k = c.draw(need.size());
        p[i].target = need[k];
        need.erase(need.begin() + k);
      } else p[i].target = c.coin(1, 5) ? (int)c.draw(p.size()) : std::min<int>(p.size() - 1, std::max<int>(0, i + c.range(-6, 6)));
      if (p[p[i].target].mn == ".equ") p[i].target = i;  // see KNOWN_FINDINGS.txt
    }
    return p;
  }
};

static std::string text(const std::vector<Line>& p) {
  std::string s = ".org $8000\nhere:\n";
  for (size_t i = 0; i < p.size(); ++i) {
    const Line& l = p[i];
    s += fmt("export l%d: ", (int)i);
    if (l.mn == ".equ") s = s.substr(0, s.rfind("export")) + ".equ 5";
    else if (l.mn == ".db") s += ".db 1";
    else s += l.mn + l.suffix;
    if (l.operand == "%") s += fmt(" l%d", l.target);
    else if (!l.operand.empty()) s += " " + l.operand;
    if (l.directive && !l.mode_name.empty()) s += " " + l.mode_name;
    if (l.conv == ref::C_noreturn) s += " noreturn";
    if (l.conv == ref::C_yields) s += " yields " + l.mode_name;
    s += "\n";
  }
  // Where everything ended up.
  s += "end: .db 0\n.org $400000\n";
  for (size_t i = 0; i < p.size(); ++i) s += p[i].mn == ".equ" ? ".dl 0\n" : fmt(".dl l%d\n", (int)i);
  return s + ".dl end\n";
}

static void run_one(Case& c, const std::vector<Line>& p, const run::Result& r, const std::vector<uint32_t>& addr, size_t entry, std::set<int>* seen, int limit = 120) {
  cpu::Cpu cpu(c);
  cpu.Enter(p[entry].mode);
  size_t i = entry + 1;
  std::string trace;
  for (int steps = 0; steps < limit; ++steps) {
    auto where = [&] { return fmt("line l%d, with e=%d m=%d x=%d, after", (int)i, cpu.e, cpu.m, cpu.x) + trace; };
    if (i >= p.size()) c.fail("runs past the last statement, after" + trace);
    const Line& l = p[i];
    trace += fmt(" l%d", (int)i);
    if (trace.size() > 300) trace = " ..." + trace.substr(trace.size() - 200);
    if (l.directive) {
      if (l.mn == ".halt") return;
      if (l.mn == ".db") c.fail("runs into data at " + where());
      if (l.mn == ".mode") {
        // the programmer says that this is the mode here
        int carry = cpu.carry;
        cpu::Cpu now(c);
        ref::Mode3 f = l.mode;
        if (f.e < 0 && cpu.Fits(f)) f.e = cpu.e;
        if (f.m < 0) f.m = cpu.m;
        if (f.x < 0) f.x = cpu.x;
        now.Enter(f);
        cpu.e = now.e, cpu.m = now.m, cpu.x = now.x, cpu.carry = carry;
      }
      ++i;
      continue;
    }
    seen->insert(i);
    uint32_t a = addr[i];
    int size = addr[i + 1] - a;
    auto byte = [&](int k) {
      auto it = r.bytes.find(a + k);
      return it == r.bytes.end() ? -1 : (int)it->second;
    };
    int k = 0;
    if (ref::PrefixByte(l.mn) >= 0) {
      c.check(byte(0) == ref::PrefixByte(l.mn), "no prefix at " + where());
      k = 1;
    }
    int op = byte(k);
    if (op < 0) c.fail("nothing assembled at " + where());
    const ref::Op& o = ref::Matrix()[op];
    if (o.mn != ref::Real(l.mn)) c.fail("the processor executes " + o.mn + " at " + where());
    int width = ref::OperandBytes(o.mode, cpu.m == 1, cpu.x == 1);
    if (k + 1 + width != size) c.fail(fmt("the processor fetches %d bytes of a statement assembled to %d, at ", k + 1 + width, size) + where());
    uint32_t operand = 0;
    for (int b = 0; b < width; ++b) operand |= (uint32_t)byte(k + 1 + b) << (8 * b);
    auto next = cpu.Step(o.mn, operand, o.mode);
    if (next == cpu::Cpu::kStop) return;
    if (next == cpu::Cpu::kCall) {
      if (l.conv == ref::C_noreturn) return;
      cpu.Return(l.conv == ref::C_yields ? &l.mode : nullptr);
    }
    if (next == cpu::Cpu::kBranch) {
      int d = o.mode == "r" ? (int8_t)operand : (int16_t)operand;
      uint32_t to = prog::Wrap(a + size, d);
      if (l.target < 0 || to != addr[l.target]) c.fail(fmt("branches to $%06x at ", to) + where());
      i = l.target;
    } else ++i;
  }
}

static void flow(Case& c) {
  Maker mk{c, {}};
  std::vector<Line> p = mk.Make();
  std::string t = text(p);
  c.note(t);
  auto r = run::Files({{"t.asm", t}});
  // Take out statements that are refused, so that more programs get to run.
  for (int tries = 0; tries < 5 && !r.ok && c.coin(9, 10); ++tries) {
    size_t q = r.error.find("t.asm:");
    size_t k = q == r.error.npos ? 0 : atoi(r.error.c_str() + q + 6) - 3;
    if (k == 0 || k >= p.size() || p[k].directive) break;
    Line nop;
    nop.mn = "nop";
    if (p[k].exit) break;
    p[k] = nop;
    t = text(p);
    c.note(t);
    r = run::Files({{"t.asm", t}});
  }
  if (!r.ok) {
    size_t q = r.error.rfind(": ");
    c.label("rejected: " + (r.error.find("unknown here") != r.error.npos ? "width unknown" : r.error.find("suffix") != r.error.npos ? "suffix" : r.error.find("not reached") != r.error.npos ? "not reached" : r.error.substr(q == r.error.npos ? 0 : q + 2).substr(0, 40)));
    return;
  }
  c.label("accepted");
  std::vector<uint32_t> addr;
  for (size_t i = 0; i <= p.size(); ++i) {
    uint32_t v = 0;
    for (int b = 0; b < 3; ++b) v |= r.bytes[0x400000 + 3 * i + b] << (8 * b);
    addr.push_back(v);
  }
  for (size_t i = p.size(); i-- > 0;) if (p[i].mn == ".equ") addr[i] = addr[i + 1];
  int flags = 0;
  std::set<int> seen;
  for (size_t i = 0; i < p.size(); ++i) {
    if (p[i].mn != ".entry") continue;
    for (int t = 0; t < 12; ++t) run_one(c, p, r, addr, i, &seen);
  }
  for (int i : seen) flags += p[i].mn == "rep" || p[i].mn == "sep" || p[i].mn == "plp" || p[i].mn == "xce" || p[i].branch;
  c.nontrivial(seen.size() >= 5 && flags >= 2);
  c.evals(seen.size());
  for (int i : seen) c.label("ran " + p[i].mn);
}

// A straight piece of code whose widths can be read off it must be accepted.
static void straight(Case& c) {
  enum { kAny = -1 };
  struct Slot { int bytes; bool flags; int m, x, c; };
  std::vector<Slot> stack;
  bool lost = false;
  int e, m, x, k = kAny;
  std::string name = c.pick(kModes);
  ref::Mode3 f;
  ref::ModeByName(name, &f);
  e = f.e, m = f.e == 1 ? 1 : f.m, x = f.e == 1 ? 1 : f.x;
  std::string t = ".org $8000\n.entry " + name + "\n";
  int used = 0, flags = 0;
  auto set = [&](int* bit, int v) {
    if (e == 1) return;
    // (a bit that may be stuck at 1 is not known to be clear)
    *bit = v == 0 && e != 0 ? kAny : v;
  };
  for (auto more = c.many(14, 40); more.more();) {
    switch (c.weighted({6, 4, 3, 3, 3, 3, 5, 4, 2, 3, 2})) {
      case 0: if (m >= 0) { t += std::string("  ") + c.pick({"lda", "and", "ora", "eor", "bit"}) + " #$5\n"; ++used; } break;
      case 1: if (x >= 0) { t += std::string("  ") + c.pick({"ldx", "ldy"}) + " #$5\n"; ++used; } break;
      case 2: case 3: {
        bool sep = c.coin();
        static const int bits[] = {0x30, 0x20, 0x10, 0x31, 0x01, 0x00, 0xff, 0xcf};
        int v = c.pick(bits);
        t += fmt("  %s #$%02x\n", sep ? "sep" : "rep", v);
        if (v & 1) k = sep;
        if (v & 0x20) set(&m, sep);
        if (v & 0x10) set(&x, sep);
        ++flags;
        break;
      }
      case 4: k = c.coin(); t += k ? "  sec\n" : "  clc\n"; break;
      case 5: {
        if (k == kAny || c.coin()) { k = c.coin(); t += k ? "  sec\n" : "  clc\n"; }
        t += "  xce\n";
        std::swap(k, e);
        // (from emulation mode both were set, and stay so)
        if (e == 1) m = x = 1;
        if (e == 0) ; 
        ++flags;
        break;
      }
      case 6: t += "  php\n"; if (!lost) stack.push_back({1, true, m, x, k}); break;
      case 7: {
        // Pull what was pushed last.
        if (lost || stack.empty()) break;
        Slot s = stack.back();
        if (s.flags) {
          t += "  plp\n";
          k = s.c;
          if (e != 1) set(&m, s.m), set(&x, s.x);
          if (s.m < 0 && e != 1) m = kAny;
          if (s.x < 0 && e != 1) x = kAny;
          ++flags;
        } else if (s.bytes == 2) t += "  pld\n";
        else t += "  plb\n";
        stack.pop_back();
        break;
      }
      case 8: {
        bool two = c.coin();
        t += two ? "  phd\n" : c.coin() ? "  phb\n" : "  phk\n";
        if (!lost) stack.push_back({two ? 2 : 1, false});
        break;
      }
      case 9: {
        // A register, if its width is known.
        bool a = c.coin();
        int w = a ? m : x;
        if (w < 0) break;
        t += a ? "  pha\n" : c.coin() ? "  phx\n" : "  phy\n";
        if (!lost) stack.push_back({w ? 1 : 2, false});
        break;
      }
      default:
        if (c.coin()) { t += c.coin() ? "  adc $12\n" : "  asl\n"; k = kAny; }
        else t += std::string("  ") + c.pick({"sta $12", "stx $1234", "tax", "nop", "inc", "dey", "ldx $12", "lda $12,x", "stz $12"}) + "\n";
    }
  }
  t += c.coin() ? "  rts\n" : "  jmp $8000\n";
  c.note(t);
  c.nontrivial(used >= 3 && flags >= 3);
  auto r = run::Files({{"t.asm", t}});
  c.check(r.ok, "refused, though the width of every instruction is plain: " + r.error);
}

// Blocks that each lead to another one, in some order; what the last one does
// to the flags comes back to an earlier one and goes all the way again.
static void ripple(Case& c) {
  Maker mk{c, {}};
  auto& p = mk.p;
  int n = c.coin() ? c.range(2, 10) : c.range(10, 60);
  std::vector<int> place(n);  // place[k]: which block is the k-th in the file
  for (int k = 0; k < n; ++k) place[k] = k;
  int how = c.draw(4);
  if (how == 1) std::reverse(place.begin(), place.end());
  if (how >= 2) for (int k = n - 1; k > 0; --k) std::swap(place[k], place[c.draw(k + 1)]);
  struct Op { char what; int bits; };  // r, s: rep and sep; m, x: an immediate
  std::vector<std::vector<Op>> ops(n);
  std::vector<int> back(n, -1);
  for (int k = c.range(1, 3); k > 0; --k) ops[c.draw(n)].push_back({c.coin() ? 'm' : 'x', 0});
  for (int k = c.weighted({4, 2, 1}); k > 0; --k) ops[c.draw(n)].push_back({c.coin() ? 'r' : 's', c.pick({0x10, 0x20, 0x30})});
  if (c.coin(5, 6)) {
    ops[n - 1].push_back({c.coin() ? 'r' : 's', c.pick({0x10, 0x20, 0x30})});
    back[n - 1] = c.draw(n);
  }
  for (int k = c.draw(3); k > 0; --k) back[c.draw(n)] = c.draw(n);
  std::string mode = c.pick({"m16x16", "m8x16", "m16x8", "m8x8"});
  // The file.
  std::vector<int> start(n);
  std::vector<std::pair<size_t, int>> fix;
  mk.dir(".entry");
  p[0].mode_name = mode;
  ref::ModeByName(mode, &p[0].mode);
  auto to = [&](const char* mn, int block) { mk.branch(mn); fix.push_back({p.size() - 1, block}); };
  to("brl", 0);
  for (int k : place) {
    start[k] = p.size();
    for (auto& o : ops[k]) {
      if (o.what == 'm' || o.what == 'x') mk.add(o.what == 'm' ? "lda" : "ldx", "#5");
      else mk.add(o.what == 'r' ? "rep" : "sep", fmt("#$%02x", o.bits));
    }
    if (ops[k].empty() || c.coin(1, 4)) mk.add("nop");
    if (back[k] >= 0) {
      mk.branch(c.pick({"bcc", "beq", "bvs"}));
      p.back().target = p.size() + 1;
      to("brl", back[k]);
    }
    if (k + 1 < n) to("brl", k + 1);
    else { mk.add("rts"); p.back().exit = true; }
  }
  for (auto& f : fix) p[f.first].target = start[f.second];
  std::string t = text(p);
  c.note(t);
  // What is known at each block, over all paths.
  struct Known { int m = -2, x = -2; };  // -2: not reached, -1: unknown
  std::vector<Known> in(n);
  in[0] = {p[0].mode.m, p[0].mode.x};
  int rounds = 0;
  bool clear = true;
  for (bool more = true; more; ++rounds) {
    more = false;
    clear = true;
    for (int k = 0; k < n; ++k) {
      if (in[k].m == -2) continue;
      Known s = in[k];
      for (auto& o : ops[k]) {
        if (o.what == 'm') clear = clear && s.m >= 0;
        else if (o.what == 'x') clear = clear && s.x >= 0;
        else {
          if (o.bits & 0x20) s.m = o.what == 's';
          if (o.bits & 0x10) s.x = o.what == 's';
        }
      }
      for (int j : {back[k], k + 1}) {
        if (j < 0 || j >= n) continue;
        Known was = in[j];
        if (was.m == -2) in[j] = s;
        else {
          if (was.m != s.m) in[j].m = -1;
          if (was.x != s.x) in[j].x = -1;
        }
        more = more || in[j].m != was.m || in[j].x != was.x;
      }
    }
  }
  c.label(n < 10 ? "up to 9 blocks" : n < 30 ? "10 to 29 blocks" : "30 and more blocks");
  c.label(clear ? "ripple: all widths known" : "ripple: a width depends on the path");
  c.nontrivial(n >= 5);
  c.evals(n);
  auto r = run::Files({{"t.asm", t}});
  c.check(r.ok == clear, clear ? "refused, though every width is known: " + r.error : "accepted, though the width of an immediate depends on the path taken");
  if (!r.ok) return;
  std::vector<uint32_t> addr;
  for (size_t i = 0; i <= p.size(); ++i) {
    uint32_t v = 0;
    for (int b = 0; b < 3; ++b) v |= r.bytes[0x400000 + 3 * i + b] << (8 * b);
    addr.push_back(v);
  }
  std::set<int> seen;
  for (int t = 0; t < 2; ++t) run_one(c, p, r, addr, 0, &seen, 12 * n);
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C25";
  cfg.rule = "random programs of about 15 statements with branches, flag changes, stack use and calls; the accepted ones are run from every .entry on a processor model with unknown data; chains of up to 60 blocks in any order, with flag changes that come back round, must be accepted exactly if every width is known; non-trivial: accepted, and at least five statements ran, two of which change flags or branch";
  cfg.tests = {{"flow", flow, 0, 5}, {"straight", straight, 0, 2}, {"ripple", ripple, 0, 1}};
  cfg.quick_cases = 25000;
  cfg.thorough_cases = 3000000;
  return pbt::main_(cfg, argc, argv);
}
