// C30: relative branches reach exactly as far as the processor can.
#include "asm_run.h"

using namespace nsasm;
using pbt::Case;
using pbt::fmt;

static void check(Case& c, const std::string& mn, const std::string& text, uint32_t at, uint32_t target, const std::map<uint32_t, uint8_t>& rest) {
  c.note(text);
  bool wide = ref::Exists(mn, "rl");
  int size = wide ? 3 : 2;
  bool same_bank = (at ^ target) >> 16 == 0;
  int d = (int16_t)(uint16_t)(target - (at + size));
  bool ok = same_bank && (wide || (d >= -128 && d <= 127));
  c.note(fmt("at $%06x to $%06x, displacement %d: ", at, target, d) + (ok ? "reachable" : "not reachable"));
  c.nontrivial(same_bank);
  c.label(!same_bank ? "other bank" : ok ? "reachable" : "too far");
  c.label(mn);
  auto r = run::Files({{"b.asm", text}});
  c.check(r.ok == ok, r.ok ? "assembles, though the processor cannot branch that far" : "does not assemble: " + r.error);
  if (!ok) return;
  auto want = rest;
  std::vector<uint8_t> b = {(uint8_t)ref::Opcode(mn, wide ? "rl" : "r"), (uint8_t)d};
  if (wide) b.push_back((uint16_t)d >> 8);
  for (size_t i = 0; i < b.size(); ++i) want[prog::Wrap(at, i)] = b[i];
  if (r.bytes != want) c.fail("wrong output: " + run::FirstDiff(r.bytes, want));
}
static const char* kBranch[] = {"bcc", "bcs", "beq", "bmi", "bne", "bpl", "bra", "bvc", "bvs", "brl", "per"};
static int distance(Case& c) {
  switch (c.weighted({6, 2, 1, 1})) {
    case 0: return (c.coin() ? -128 : 127) + c.range(-4, 4);
    case 1: return c.range(-128, 127);
    case 2: return (c.coin() ? -32768 : 32767) + c.range(-4, 4);
    default: return c.range(-32768, 32767);
  }
}
// Branch and target in blocks of their own.
static void apart(Case& c) {
  std::string mn = c.pick(kBranch);
  bool wide = ref::Exists(mn, "rl"), exit = mn == "bra" || mn == "brl";
  int size = wide ? 3 : 2;
  uint32_t at = c.draw(0x1000000);
  if (c.coin()) at = prog::Wrap(at & 0xff0000, c.range(-140, 140));
  if (c.coin(1, 4)) at = prog::Wrap(at & 0xff0000, 0x8000 + c.range(-140, 140));
  uint32_t to = prog::Wrap(at + 0, size + distance(c));
  if (c.coin(1, 15)) to ^= (uint32_t)c.range(1, 255) << 16;
  if (c.coin(1, 20)) to = (at + size + c.range(-128, 127)) & 0xffffff;  // arithmetic that does not wrap in the bank
  std::map<uint32_t, uint8_t> rest;
  std::string text;
  std::string block = fmt(".org $%06x\n.entry m8x8\n", at);
  std::string name = c.coin() ? "target" : "@target";
  if (to == at) {
    text = block + "target: " + mn + " " + name + "\n";
    if (!exit) text += "rts\n", rest[prog::Wrap(at, size)] = 0x60;
  } else {
    int mine = size + !exit;
    for (int i = 0; i < mine; ++i) if (prog::Wrap(at, i) == to) return;  // would overlap
    block += mn + " " + name + "\n";
    if (!exit) block += "rts\n", rest[prog::Wrap(at, size)] = 0x60;
    std::string other = fmt(".org $%06x\n", to) + (mn == "per" ? ".entry m8x8\n" : "") + "target: rts\n";
    rest[to] = 0x60;
    text = c.coin() ? block + other : other + block;
  }
  check(c, mn, text, at, to, rest);
}
// Both in one block, with other instructions in between.
static void together(Case& c) {
  std::string mn = c.pick(kBranch);
  bool wide = ref::Exists(mn, "rl"), exit = mn == "bra" || mn == "brl";
  int size = wide ? 3 : 2;
  bool forward = c.coin();
  int gap = c.coin() ? 126 + c.range(-5, 5) : c.draw(200);
  uint32_t org = c.coin() ? c.draw(0x1000000) : prog::Wrap(c.draw(0x1000000) & 0xff0000, -c.range(0, 300)), pc = org;
  std::map<uint32_t, uint8_t> rest;
  std::string text = fmt(".org $%06x\n.entry m8x8\n", org);
  uint32_t at = 0, target = 0;
  auto fill = [&](int n) {
    while (n > 0) {
      int k = c.weighted({3, 1, 1}) + 1;
      if (k > n) k = n;
      static const char* ins[] = {"nop\n", "lda #5\n", "lda $1234\n"};
      static const uint8_t code[3][3] = {{0xea}, {0xa9, 5}, {0xad, 0x34, 0x12}};
      text += ins[k - 1];
      for (int i = 0; i < k; ++i) rest[prog::Wrap(pc, i)] = code[k - 1][i];
      pc = prog::Wrap(pc, k);
      n -= k;
    }
  };
  auto branch = [&] { text += mn + " target\n"; at = pc; pc = prog::Wrap(pc, size); };
  auto label = [&] { text += "target: "; target = pc; };
  if (forward) {
    branch();
    if (exit && gap) text += ".entry m8x8\n";
    fill(gap);
    label();
  } else {
    label();
    fill(gap);
    branch();
    if (exit) text += ".entry m8x8\n";
  }
  text += "rts\n";
  rest[pc] = 0x60;
  check(c, mn, text, at, target, rest);
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C30";
  cfg.rule = "every relative instruction with a target at displacements around the limits, anywhere in the bank or across its ends, and in other banks; non-trivial: the target is in the same bank";
  cfg.tests = {{"apart", apart, 0, 2}, {"together", together}};
  cfg.quick_cases = 60000;
  cfg.thorough_cases = 2000000;
  return pbt::main_(cfg, argc, argv);
}
