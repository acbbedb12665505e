// C14: the opcode table is the 65816's.
#include "nsasm/opcode_map.h"
#include "nsasm_map.h"
#include "pbt.h"

using namespace nsasm;
using pbt::Case;
using pbt::fmt;

static std::string opname(const ref::Op& o) { return o.mn + " " + o.mode; }

// One opcode byte.
static void decode(Case& c) {
  int op = c.index;
  const ref::Op& want = ref::Matrix()[op];
  c.note(fmt("opcode $%02x = ", op) + opname(want));
  c.nontrivial();
  auto got = DecodeOpcode(op);
  c.check(got.first == ref::MnEnum(want.mn), "decodes to mnemonic " + std::string(ToString(got.first)));
  c.check(got.second == ref::ModeEnum(want.mode), "decodes to mode " + ToString(got.second));
  auto back = EncodeOpcode(got.first, got.second);
  c.check(back.has_value() && *back == op, "does not encode back");
  int len = InstructionLength(got.second);
  if (want.mode == "#m" || want.mode == "#x") {
    c.check(len == 0, "a flag-dependent immediate has no fixed length");
    c.check(InstructionLength(A_imm_b) == 2 && InstructionLength(A_imm_w) == 3, "immediate lengths");
  } else {
    c.check_f(len == 1 + ref::OperandBytes(want.mode, true, true), [&] { return fmt("length %d", len); });
    int w = want.mode == "mv" ? 1 : len - 1;
    NumericType t = w == 0 ? T_unknown : w == 1 ? T_byte : w == 2 ? T_word : T_long;
    c.check(Arg1Type(got.second) == t, "operand type of " + ToString(got.second));
  }
  static const char* cmos = " 04 0c 12 14 1a 1c 32 34 3a 3c 52 5a 64 72 74 7a 7c 80 89 92 9c 9e b2 d2 da f2 fa ";
  static const std::set<std::string> mode816 = {"l", "l,x", "s", "(s),y", "[d]", "[d],y", "[a]", "mv", "rl"};
  static const std::set<std::string> mn816 = {"cop", "jsl", "mvn", "mvp", "pea", "pei", "per", "phb", "phd", "phk", "plb", "pld", "rep", "rtl", "sep",
                                              "tcd", "tcs", "tdc", "tsc", "txy", "tyx", "wdm", "xba", "xce"};
  bool is816 = mode816.count(want.mode) || mn816.count(want.mn) || op == 0xfc;
  Family f = FamilyForOpcode(op);
  if (want.mn == "wai" || want.mn == "stp") c.check(f != F_6502, "family");
  else c.check(f == (is816 ? F_65816 : strstr(cmos, fmt(" %02x ", op).c_str()) ? F_65C02 : F_6502), "processor family");
}

// One mnemonic against every addressing mode.
static void encode(Case& c) {
  const std::string& mn = ref::AllNames()[c.index];
  Mnemonic m = ref::MnEnum(mn);
  c.note(mn);
  c.nontrivial();
  std::map<AddressingMode, int> want;
  for (int op = 0; op < 256; ++op) {
    auto& o = ref::Matrix()[op];
    if (o.mn != mn) continue;
    want[ref::ModeEnum(o.mode)] = op;
    if (o.mode == "#m" || o.mode == "#x") want[A_imm_b] = want[A_imm_w] = op;
  }
  c.check(AllAddressingModes().size() == 27, "number of addressing modes");
  std::set<AddressingMode> seen;
  for (AddressingMode a : AllAddressingModes()) {
    seen.insert(a);
    auto e = EncodeOpcode(m, a);
    c.check(e.has_value() == (want.count(a) > 0), mn + " with mode " + ToString(a) + (e.has_value() ? " must not encode" : " must encode"));
    if (e.has_value()) c.check(*e == want[a], mn + " with mode " + ToString(a) + fmt(" encodes as $%02x", *e));
    c.check(IsLegalCombination(m, a) == (want.count(a) > 0), mn + " legality with mode " + ToString(a));
  }
  c.check(seen.size() == 27, "addressing modes listed twice");
  c.evals(2 * 27);
  std::string real = ref::Real(mn);
  c.check(ImmediateArgumentUsesMBit(m) == ref::Exists(real, "#m"), mn + ": immediate size follows M");
  c.check(ImmediateArgumentUsesXBit(m) == ref::Exists(real, "#x"), mn + ": immediate size follows X");
  c.check(TakesOffsetArgument(m) == ref::IsBranch(mn), mn + ": takes an offset");
  c.check(TakesLongOffsetArgument(m) == ref::Exists(mn, "rl"), mn + ": takes a long offset");
  StatusFlagUsed u = FlagControllingInstructionSize(m);
  c.check(u == (ref::WidthM().count(mn) ? kUsesMFlag : ref::WidthX().count(mn) ? kUsesXFlag : kNotVariable), mn + ": data size flag");
}

// Modes and operand forms can be told apart by their names.
static void names(Case& c) {
  c.note("names of modes");
  c.nontrivial();
  std::set<std::string> modes, forms;
  for (AddressingMode a : AllAddressingModes()) modes.insert(ToString(a));
  c.check(modes.size() == 27 && !modes.count(""), "two addressing modes have the same name");
  for (auto f : {SA_imp, SA_acc, SA_imm, SA_dir, SA_dir_x, SA_dir_y, SA_ind, SA_ind_x, SA_ind_y, SA_lng, SA_lng_y, SA_stk, SA_stk_y, SA_mov}) forms.insert(ToString(f));
  c.check(forms.size() == 14 && !forms.count(""), "two operand forms have the same name");
  c.check(!modes.count("???") && !forms.count("???"), "a mode has no name");
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C14";
  cfg.rule = "complete enumeration: 256 opcodes; all 93 mnemonics against all 27 addressing modes; every case is non-trivial";
  cfg.tests = {{"decode", decode, 256}, {"encode", encode, ref::AllNames().size()}, {"names", names, 1}};
  return pbt::main_(cfg, argc, argv);
}
