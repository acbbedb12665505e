// C27: an instruction is assembled at the width its mode implies, or refused.
#include "asm_run.h"

using namespace nsasm;
using pbt::Case;
using pbt::fmt;

static const char* kModes[] = {"unk", "emu", "native", "m8", "m16", "x8", "x16", "m8x8", "m8x16", "m16x8", "m16x16"};

// One legal instruction, one suffix, one mode.
static void one(Case& c, const gen::Combo& k, int suffix, const std::string& mode_name, bool by_mode_directive) {
  static const char* shape[] = {"", " A", " #%", " %", " %,X", " %,Y", " (%)", " (%,X)", " (%),Y", " [%]", " [%],Y", " %,S", " (%,S),Y", " #%,#$34"};
  ref::Mode3 f;
  ref::ModeByName(mode_name, &f);
  uint32_t v = c.draw(1u << (k.width ? 8 * k.width : 7));
  std::string operand = k.is_name ? "here" : k.width ? fmt("$%0*x", 2 * k.width, v) : fmt("%d", v);
  std::string ins = gen::mixcase(c, k.mn) + (suffix == 1 ? ".b" : suffix == 2 ? ".w" : "");
  for (const char* q = shape[k.form]; *q; ++q) ins += *q == '%' ? operand : std::string(1, *q);
  static const std::set<std::string> exits = {"jmp", "rts", "rtl", "rti", "stp", "bra", "brl"};
  std::string text = ".org $8000\n.entry ";
  text += by_mode_directive ? c.pick(kModes) + std::string("\n.mode ") + mode_name : mode_name;
  text += "\nhere: " + ins + "\n";
  if (!exits.count(k.mn)) text += "rts\n";
  c.note(text);
  // What the processor manual says.
  std::string mode = k.form <= ref::F_A ? ref::Deduce(k.mn, (ref::Form)k.form, {}) : ref::Deduce(k.mn, (ref::Form)k.form, {k.width, true, v, k.is_name}, {1, true, 0x34, false});
  bool byM = ref::WidthM().count(k.mn), byX = ref::WidthX().count(k.mn);
  int known = byM ? f.m : byX ? f.x : -1;
  bool ok = true;
  if (suffix && !byM && !byX) ok = false;
  if (suffix == 1 && known == 0) ok = false;
  if (suffix == 2 && known == 1) ok = false;
  int imm = mode == "#m" ? f.m : mode == "#x" ? f.x : 1;
  if (imm < 0) ok = false;
  std::map<uint32_t, uint8_t> want;
  if (ok) {
    std::vector<uint8_t> b;
    if (ref::PrefixByte(k.mn) >= 0) b.push_back(ref::PrefixByte(k.mn));
    b.push_back(ref::Opcode(ref::Real(k.mn), mode));
    int n = ref::OperandBytes(mode, f.m == 1, f.x == 1);
    if (k.form <= ref::F_A) n = 0;
    if (mode == "mv") b.push_back(0x34), b.push_back(v);
    else if (mode == "r") b.push_back(0xfe);
    else if (mode == "rl") b.push_back(0xfd), b.push_back(0xff);
    else for (int i = 0; i < n; ++i) b.push_back(v >> (8 * i));
    if (!exits.count(k.mn)) b.push_back(0x60);
    for (size_t i = 0; i < b.size(); ++i) want[0x8000 + i] = b[i];
  }
  c.nontrivial(suffix || mode[0] == '#' || byM || byX);
  c.label(ok ? "accepted" : "refused");
  auto r = run::Files({{"w.asm", text}});
  c.check(r.ok == ok, r.ok ? "accepted, but its width is unknown or contradicts its suffix" : "refused: " + r.error);
  if (!ok) return;
  if (r.bytes != want) c.fail("assembles to" + run::Show(r.bytes) + ", want" + run::Show(want));
}
static void grid(Case& c) {
  uint64_t i = c.index;
  int mode = i % 11; i /= 11;
  int suffix = i % 3; i /= 3;
  one(c, gen::combos()[i], suffix, kModes[mode], c.coin());
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C27";
  cfg.rule = "complete grid: every legal instruction, operand form and operand size x no suffix, .b or .w x all eleven processor modes, with random operands; non-trivial: the instruction has a suffix or a width that depends on the mode";
  cfg.tests = {{"grid", grid, gen::combos().size() * 33}};
  return pbt::main_(cfg, argc, argv);
}
