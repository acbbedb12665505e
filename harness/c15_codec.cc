// C15: decoding and encoding machine code are inverse.
#include "nsasm/decode.h"
#include "nsasm/opcode_map.h"
#include "nsasm_map.h"
#include "gen_addr.h"

using namespace nsasm;
using pbt::Case;
using pbt::fmt;

static uint32_t num(Address a) { return (uint32_t)a.Bank() << 16 | a.BankAddress(); }

struct Recorder : OutputSink {
  std::vector<std::pair<Address, std::vector<uint8_t>>> w;
  ErrorOr<void> Write(Address a, absl::Span<const uint8_t> d) override {
    w.emplace_back(a, std::vector<uint8_t>(d.begin(), d.end()));
    return {};
  }
};
static std::string hex(const std::vector<uint8_t>& v) {
  std::string s;
  for (auto b : v) s += fmt("%02x ", b);
  return s;
}

static void codec(Case& c, int op) {
  const ref::Op& o = ref::Matrix()[op];
  BitState e = c.pick({B_off, B_off, B_on, B_unknown, B_original});
  BitState m = c.pick({B_on, B_off, B_unknown, B_original}), x = c.pick({B_on, B_off, B_unknown, B_original});
  StatusFlags flags(e, m, x);
  m = flags.MBit(), x = flags.XBit();
  std::vector<uint8_t> buf = {(uint8_t)op};
  int n = c.weighted({1, 1, 1, 12, 1});
  for (int i = 0; i < n; ++i) buf.push_back(c.coin(1, 3) ? c.pick({0, 0x7f, 0x80, 0xff}) : c.draw(256));
  if (c.coin(1, 50)) buf.clear();
  Address at(gen::address(c));
  c.note(fmt("%s at %s with e=%d m=%d x=%d (%s %s)", hex(buf).c_str(), at.ToString().c_str(), e, m, x, o.mn.c_str(), o.mode.c_str()));
  auto r = Decode(buf, flags);
  bool known = o.mode == "#m" ? m == B_on || m == B_off : o.mode == "#x" ? x == B_on || x == B_off : true;
  int len = 1 + ref::OperandBytes(o.mode, m == B_on, x == B_on);
  bool want = !buf.empty() && known && (int)buf.size() >= len;
  c.nontrivial(want);
  c.label(want ? "decodes" : "rejected");
  c.check(r.ok() == want, r.ok() ? "must not decode" : "must decode: " + r.error().ToString());
  if (!want) return;
  Instruction& ins = *r;
  std::string mode = o.mode == "#m" ? (m == B_on ? "#" : "#w") : o.mode == "#x" ? (x == B_on ? "#" : "#w") : o.mode;
  c.check(ins.mnemonic == ref::MnEnum(o.mn) && ins.addressing_mode == ref::ModeEnum(mode), "decodes to " + ins.ToString());
  c.check(ins.suffix == S_none && ins.return_convention.IsDefault(), "a decoded instruction has no suffix and no convention");
  c.check(ins.SerializedSize() == len && InstructionLength(ins.addressing_mode) == len, fmt("length %d, want %d", ins.SerializedSize(), len));
  c.check(ins.CheckConsistency(flags).ok(), "inconsistent with the flags it was decoded under");
  // operand value
  int val = 0, val2 = 0;
  if (o.mode == "mv") val = buf[2], val2 = buf[1];
  else for (int i = len - 1; i >= 1; --i) val = val << 8 | buf[i];
  if (o.mode == "r") val = (int8_t)val;
  if (o.mode == "rl") val = (int16_t)val;
  if (len > 1) {
    auto v = ins.arg1.Evaluate(NullLookupContext());
    c.check(v.ok() && *v == val, fmt("operand %d, want %d", v.ok() ? *v : -1, val));
  } else c.check(!ins.arg1, "an operand appeared");
  if (o.mode == "mv") {
    auto v = ins.arg2.Evaluate(NullLookupContext());
    c.check(v.ok() && *v == val2, "second operand");
  } else c.check(!ins.arg2, "a second operand appeared");
  bool rel = o.mode == "r" || o.mode == "rl";
  c.check(ins.IsLocalBranch() == (rel && o.mn != "per"), "branch classification");
  if (rel) ins.arg1 = absl::make_unique<Literal>((int)((num(at) & 0xff0000) | ((num(at) + len + val) & 0xffff)), T_long);
  Recorder rec;
  auto a = ins.Assemble(at, NullLookupContext(), &rec);
  c.check(a.ok(), a.ok() ? std::string() : "does not assemble: " + a.error().ToString());
  c.check(rec.w.size() == 1 && rec.w[0].first == at, "must be written once, at its address");
  buf.resize(len);
  c.check(rec.w[0].second == buf, "assembles to " + hex(rec.w[0].second));
  bool far_w = (o.mn == "jmp" || o.mn == "jsr") && o.mode == "a", far_l = (o.mn == "jmp" || o.mn == "jsl") && o.mode == "l";
  auto t = ins.FarBranchTarget(at);
  c.check(t.has_value() == (far_w || far_l), "far target");
  if (t) c.check(num(*t) == (far_l ? (uint32_t)val : (num(at) & 0xff0000) | val), "far target " + t->ToString());
  static const std::set<std::string> exits = {"jmp", "rtl", "rts", "rti", "stp", "bra", "brl"};
  c.check(ins.IsExitInstruction() == (exits.count(o.mn) > 0), "ends the control flow");
}

static void each(Case& c) { codec(c, c.index % 256); }
static void sampled(Case& c) { codec(c, c.draw(256)); }

// Any operand value and type: the low bytes are emitted.
static void encode(Case& c) {
  const std::string& mn = c.pick(ref::AllNames());
  std::vector<int> ops;
  for (int i = 0; i < 256; ++i)
    if (ref::Matrix()[i].mn == ref::Real(mn) && ref::Matrix()[i].mode[0] != 'r') ops.push_back(i);
  if (ops.empty()) return;
  int op = c.pick(ops);
  std::string mode = ref::Matrix()[op].mode;
  bool w8 = c.coin();
  int len = 1 + ref::OperandBytes(mode, w8, w8);
  std::string fixed = mode == "#m" || mode == "#x" ? (w8 ? "#" : "#w") : mode;
  NumericType t = c.pick({T_unknown, T_byte, T_word, T_long, T_signed_byte, T_signed_word, T_signed_long});
  int v = gen::any_int(c), v2 = gen::any_int(c);
  Instruction ins;
  ins.mnemonic = ref::MnEnum(mn);
  ins.suffix = S_none;
  ins.addressing_mode = ref::ModeEnum(fixed);
  if (len > 1) ins.arg1 = absl::make_unique<Literal>(v, t);
  if (mode == "mv") ins.arg2 = absl::make_unique<Literal>(v2, t);
  Address at(gen::address(c));
  std::vector<uint8_t> want;
  if (ref::PrefixByte(mn) >= 0) want.push_back(ref::PrefixByte(mn));
  want.push_back(op);
  unsigned lit = CastTo(t, v), lit2 = CastTo(t, v2);
  if (mode == "mv") want.push_back(lit2), want.push_back(lit);
  else for (int i = 0; i + 1 < len; ++i) want.push_back(lit >> (8 * i));
  c.note(mn + " " + fixed + fmt(" operand %d/%d at ", (int)lit, (int)lit2) + at.ToString());
  c.nontrivial(len > 1);
  Recorder rec;
  auto a = ins.Assemble(at, NullLookupContext(), &rec);
  c.check(a.ok(), "does not assemble");
  c.check(rec.w.size() == 1 && rec.w[0].first == at && rec.w[0].second == want, "assembles to " + hex(rec.w[0].second) + "want " + hex(want));
  c.check(ins.SerializedSize() == (int)want.size(), "size");
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C15";
  cfg.rule = "every opcode (64 times each) and random opcodes with random operand bytes, truncated buffers, processor states and addresses; non-trivial: the bytes decode, or the encoded instruction has an operand";
  cfg.tests = {{"each", each, 256 * 64}, {"sampled", sampled, 0, 3}, {"encode", encode, 0, 1}};
  cfg.quick_cases = 1500000;
  cfg.thorough_cases = 20000000;
  return pbt::main_(cfg, argc, argv);
}
