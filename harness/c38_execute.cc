// C38: what executing an instruction does to a tracked state, against machines
// that run the same machine code.
#include <deque>
#include <map>

#include "nsasm/decode.h"
#include "nsasm/instruction.h"
#include "ref65816.h"
#include "track.h"

using namespace track;

namespace {

// Names that stand for operands; only those in the table can be looked up.
struct Names : LookupContext {
  std::map<std::string, int> table;
  ErrorOr<int> Lookup(const FullIdentifier& id) const override {
    auto it = table.find(id.Identifier());
    if (it == table.end()) return Error("no %s", id.Identifier());
    return it->second;
  }
};

int Bits8(int wide) { return wide ? 0xffff : 0xff; }

uint8_t P(Case& c, const Machine& m) { return (c.draw(256) & 0xce) | m.m << 5 | m.x << 4 | m.c; }
void SetP(Machine& m, uint8_t p) {
  m.m = p >> 5 & 1, m.x = p >> 4 & 1, m.c = p & 1;
  Settle(m);
}
void Push(Machine& m, int v, int n) {
  while (n--) m.stack.push_back(v >> 8 * n & 255);
}
int Pull(Case& c, Machine& m, int n) {
  int v = 0;
  for (int i = 0; i < n; ++i) v |= Pop(c, m) << 8 * i;
  return v;
}
// Sets a register from a transfer or load, at the register's own width.
int AnyState(Case& c, BitState b, int was) { return b == B_off ? 0 : b == B_on ? 1 : b == B_original ? was : (int)c.draw(2); }

enum Next { kOn, kTaken, kNotTaken, kGone };

// Runs one instruction (other than add/sub) on a machine.  `call` is the flags a
// call comes back with, if they are declared.
Next Execute(Case& c, Machine& m, const ref::Op& op, int arg, int arg2, const StatusFlags* yields) {
  const std::string &mn = op.mn, &mode = op.mode;
  bool wm = !m.m, wx = !m.x;
  bool imm = mode == "#m" || mode == "#x" || mode == "#", acc = mode == "A";
  auto data = [&](bool wide) {
    if (imm) return arg & Bits8(wide);
    if (mode == "s") {  // off the stack
      int v = 0;
      for (int i = 0; i < (wide ? 2 : 1); ++i) {
        int at = (arg & 255) + i;
        bool mine = at >= 1 && at <= (int)m.stack.size();
        v |= (mine ? m.stack[m.stack.size() - at] : (int)c.draw(256)) << 8 * i;
      }
      return v;
    }
    return (int)c.draw(0x10000) & Bits8(wide);
  };
  auto setA = [&](int v) { Load(m, 0, v); };
  auto compare = [&](int reg, bool wide) { m.c = (reg & Bits8(wide)) >= data(wide); };
  if (mn == "clc") m.c = 0;
  else if (mn == "sec") m.c = 1;
  else if (mn == "rep" || mn == "sep") {
    int v = mn == "sep";
    if (arg & 1) m.c = v;
    if (arg & 0x20) m.m = v;
    if (arg & 0x10) m.x = v;
    Settle(m);
  } else if (mn == "xce") {
    std::swap(m.c, m.e);
    Settle(m);
  } else if (mn == "adc" || mn == "sbc") {
    setA(c.draw(0x10000));
    m.c = c.draw(2);
  } else if (mn == "and") setA(m.a & (data(wm) | (wm ? 0 : 0xff00)));
  else if (mn == "ora") setA(m.a | data(wm));
  else if (mn == "eor") setA(m.a ^ data(wm));
  else if (mn == "cmp") compare(m.a, wm);
  else if (mn == "cpx") compare(m.X, wx);
  else if (mn == "cpy") compare(m.Y, wx);
  else if (mn == "asl" || mn == "lsr" || mn == "rol" || mn == "ror") {
    int top = wm ? 0x8000 : 0x80, v = acc ? m.a & Bits8(wm) : data(wm), in = mn[0] == 'r' ? m.c : 0;
    bool left = mn == "asl" || mn == "rol";
    m.c = left ? !!(v & top) : v & 1;
    if (acc) setA(left ? v << 1 | in : v >> 1 | (in ? top : 0));
  } else if (mn == "inc" || mn == "dec") {
    if (acc) setA(m.a + (mn == "inc" ? 1 : -1));
  } else if (mn == "inx") Load(m, 1, m.X + 1);
  else if (mn == "dex") Load(m, 1, m.X - 1);
  else if (mn == "iny") Load(m, 2, m.Y + 1);
  else if (mn == "dey") Load(m, 2, m.Y - 1);
  else if (mn == "lda") setA(data(wm));
  else if (mn == "ldx") Load(m, 1, data(wx));
  else if (mn == "ldy") Load(m, 2, data(wx));
  else if (mn == "tax") Load(m, 1, m.a);
  else if (mn == "tay") Load(m, 2, m.a);
  else if (mn == "txa") setA(m.X);
  else if (mn == "tya") setA(m.Y);
  else if (mn == "txy") Load(m, 2, m.X);
  else if (mn == "tyx") Load(m, 1, m.Y);
  else if (mn == "tsx") Load(m, 1, c.draw(0x10000));
  else if (mn == "tsc" || mn == "tdc") m.a = c.draw(0x10000);
  else if (mn == "xba") m.a = m.a >> 8 | (m.a & 255) << 8;
  else if (mn == "mvn" || mn == "mvp") {
    int n = mn == "mvn" ? m.a + 1 : -(m.a + 1);
    Load(m, 1, m.X + n);
    Load(m, 2, m.Y + n);
    m.a = 0xffff;
    m.b = arg2 & 255;
  } else if (mn == "pha") Push(m, m.a, wm ? 2 : 1);
  else if (mn == "phx") Push(m, m.X, wx ? 2 : 1);
  else if (mn == "phy") Push(m, m.Y, wx ? 2 : 1);
  else if (mn == "pla") setA(Pull(c, m, wm ? 2 : 1));
  else if (mn == "plx") Load(m, 1, Pull(c, m, wx ? 2 : 1));
  else if (mn == "ply") Load(m, 2, Pull(c, m, wx ? 2 : 1));
  else if (mn == "pea") Push(m, arg, 2);
  else if (mn == "pei" || mn == "per" || mn == "phd") Push(m, c.draw(0x10000), 2);
  else if (mn == "phb") Push(m, m.b, 1);
  else if (mn == "phk") Push(m, c.draw(256), 1);
  else if (mn == "plb") m.b = Pull(c, m, 1);
  else if (mn == "pld") Pull(c, m, 2);
  else if (mn == "php") Push(m, P(c, m), 1);
  else if (mn == "plp") SetP(m, Pull(c, m, 1));
  else if (mn == "tcs" || mn == "txs") {
    m.stack.clear();
    Push(m, c.draw(0x10000), c.draw(3));
  } else if (mn == "sta" && mode == "s") {
    for (int i = 0; i < (wm ? 2 : 1); ++i) {
      int at = (arg & 255) + i;
      if (at >= 1 && at <= (int)m.stack.size()) m.stack[m.stack.size() - at] = m.a >> 8 * i & 255;
    }
  } else if (mn == "jsr" || mn == "jsl" || mn == "brk" || mn == "cop") {
    if (yields) {
      // (what a declaration leaves open is anything)
      m.e = AnyState(c, yields->EBit(), c.draw(2));
      m.m = AnyState(c, yields->MBit(), c.draw(2));
      m.x = AnyState(c, yields->XBit(), c.draw(2));
    }
    m.c = c.draw(2);
    m.a = c.draw(0x10000), m.X = c.draw(0x10000), m.Y = c.draw(0x10000), m.b = c.draw(256);
    Settle(m);
  } else if (mn == "bcc") return m.c ? kNotTaken : kTaken;
  else if (mn == "bcs") return m.c ? kTaken : kNotTaken;
  else if (mode == "r" || mn == "brl") return mn == "bra" || mn == "brl" ? kTaken : c.coin() ? kTaken : kNotTaken;
  else if (mn == "jmp" || mn == "rts" || mn == "rtl" || mn == "rti" || mn == "stp") return kGone;
  return kOn;
}

// Instructions that leave everything that is tracked alone.
bool Neutral(const ref::Op& op) {
  static const std::set<std::string> s = {"bit", "cld", "cli", "clv", "nop", "sed", "sei", "stx", "sty", "stz", "tcd", "trb", "tsb", "wai", "wdm"};
  return s.count(op.mn) || (op.mn == "sta" && op.mode != "s") || ((op.mn == "inc" || op.mn == "dec") && op.mode != "A");
}

void run(Case& c) {
  Pair p = Enter(c);
  if (c.coin(1, 8)) {  // a state that knows nothing about its entry
    p.s.Flags() = StatusFlags(p.s.Flags().EBit() == B_original ? B_unknown : p.s.Flags().EBit(), B_unknown, B_unknown, B_unknown);
    c.note("(flags forgotten)");
  }
  static const std::vector<int> kLively = [] {
    std::vector<int> v;
    for (const char* n : {"php", "plp", "pha", "pla", "phx", "plx", "phy", "ply", "phb", "plb", "pea", "rep", "rep", "sep", "sep", "xce", "clc", "sec", "lda", "ldx", "ldy", "inc", "dec",
                          "inx", "dex", "iny", "dey", "sta", "mvn", "mvp", "tax", "txa", "bcc", "bcs", "jsr"})
      for (int i = 0; i < 256; ++i)
        if (ref::Matrix()[i].mn == n && (ref::Matrix()[i].mode == "A" || ref::Matrix()[i].mode == "s" || ref::Matrix()[i].mode[0] == '#' || ref::Opcode(n, "i") == i || n[0] == 'm' || n[0] == 'b' || n[0] == 'j')) v.push_back(i);
    return v;
  }();
  int known = 0, stacked = 0, named = 0;
  // Now and then: many things on the stack, a store among them, and all of them back.
  std::deque<int> plan;
  int deep = 0;
  if (c.coin(1, 10)) {
    auto op = [](const char* mn, const char* mode) { return (int)ref::Opcode(mn, mode); };
    std::vector<int> back;
    static const std::pair<const char*, const char*> kPairs[] = {{"php", "plp"}, {"php", "plp"}, {"pha", "pla"}, {"phx", "plx"}, {"phy", "ply"}, {"phb", "plb"}, {"phk", "plb"}, {"phd", "pld"}, {"pea", "pld"}};
    for (int n = c.coin(1, 3) ? c.range(10, 100) : c.range(1, 25); n > 0; --n) {
      auto& q = plan.empty() || c.coin(1, 8) ? kPairs[c.draw(9)] : kPairs[c.range(5, 8)];
      plan.push_back(op(q.first, q.first == std::string("pea") ? "#w" : "i"));
      back.push_back(op(q.second, "i"));
      deep += 2;
    }
    for (int n = c.range(0, 2); n > 0; --n) plan.push_back(op("sta", "s"));
    plan.insert(plan.end(), back.rbegin(), back.rend());
    c.label("deep stack");
  }
  for (auto more = c.many(16, 60); !plan.empty() || more.more();) {
    int opcode = c.coin(2, 3) ? c.pick(kLively) : (int)c.draw(256);
    if (!plan.empty()) opcode = plan.front(), plan.pop_front();
    const ref::Op& op = ref::Matrix()[opcode];
    // Operand bytes.
    uint8_t b[4] = {(uint8_t)opcode, (uint8_t)c.draw(256), (uint8_t)c.draw(256), (uint8_t)c.draw(256)};
    if (op.mode == "s") b[1] = c.draw(deep && c.coin() ? std::min(deep + 4, 256) : 7);
    if (c.coin(1, 3)) b[2] = 0;
    if (op.mn == "rep" || op.mn == "sep") {
      static const uint8_t v[] = {0x30, 0x20, 0x10, 0x31, 0x01, 0x00, 0xff};
      b[1] = c.pick(v);
    }
    StatusFlags f = p.s.Flags();
    if ((op.mode == "#m" && f.MBit() != B_on && f.MBit() != B_off) || (op.mode == "#x" && f.XBit() != B_on && f.XBit() != B_off)) continue;
    int size = ref::OperandBytes(op.mode, f.MBit() == B_on, f.XBit() == B_on);
    auto r = Decode(absl::MakeConstSpan(b, 1 + size), f);
    c.check_f(r.ok(), [&] { return fmt("opcode %02x does not decode", opcode); });
    Instruction& ins = *r;
    bool wide = size == 2;
    int arg = size == 0 ? 0 : size == 1 ? b[1] : size == 2 ? b[1] | b[2] << 8 : b[1] | b[2] << 8 | b[3] << 16, arg2 = 0;
    if (op.mode == "mv") arg = b[2], arg2 = b[1];
    // A call with a declared return state.
    StatusFlags yields;
    bool call = op.mn == "jsr" || op.mn == "jsl", declared = call && c.coin();
    if (declared) {
      yields = RandomFlags(c);
      ins.return_convention = ReturnConvention(yields);
    }
    // The flag-dependent forms, as they are before widths are settled.
    if (op.mode == "#m" && c.coin(1, 4)) ins.addressing_mode = A_imm_fm;
    if (op.mode == "#x" && c.coin(1, 4)) ins.addressing_mode = A_imm_fx;
    // Operands by name.
    Names names;
    int open = 0;
    auto rename = [&](ExpressionOrNull& e, const char* id, int v) {
      if (!c.coin(1, 5)) return;
      e = absl::make_unique<IdentifierExpression>(FullIdentifier(id), e.Type());
      if (c.coin()) names.table[id] = v;
      else ++open;
      ++named;
    };
    if (size && op.mode[0] != 'r') rename(ins.arg1, "foo", arg);
    if (op.mode == "mv") rename(ins.arg2, "bar", arg2);
    bool loose = open > 0;
    if (loose && op.mn == "rep") c.label("open operand of rep/sep");
    c.note(fmt("%s %s", op.mn.c_str(), op.mode.c_str()) + (size ? fmt(" %x", arg) : "") + (op.mode == "mv" ? fmt(",%x", arg2) : "") + (loose ? " (not known)" : "") + (declared ? " yields " + Bits(yields) : ""));

    ExecutionState before = p.s;
    bool reeval = false;
    auto ok = ins.Execute(&p.s, absl::nullopt, names, &reeval);
    c.check(ok.ok(), "execution fails");
    c.evals(1);
    // Without anything to look names up in, less is known, but no more and nothing else.
    if (size && op.mode[0] != 'r' && c.coin(1, 8)) {
      ExecutionState again = before;
      c.check(ins.Execute(&again).ok(), "execution fails without a context");
      if (!names.table.size()) c.check(again == p.s, "executes differently without a context");
    }
    if (reeval) c.check(loose, "asks to be evaluated again, though all operands are known");
    bool branch = op.mode == "r" || op.mn == "brl";
    ExecutionState taken = before;
    if (branch) c.check(ins.ExecuteBranch(&taken).ok(), "branch fails");
    Pair on{p.s, {}}, away{taken, {}};
    for (auto& run : p.runs) {
      Run t = run;
      int a = arg, a2 = arg2;
      if (loose) {
        // The operand may be anything.
        if (!names.table.count("foo") && ins.arg1.RequiresLookup()) a = c.draw(size == 1 || op.mode == "mv" ? 256 : 0x10000);
        if (op.mn == "rep" || op.mn == "sep") { static const uint8_t v[] = {0x30, 0x20, 0x10, 0x31, 0x01, 0x00, 0xff}; a = c.pick(v); }
        if (op.mode == "s") a = c.draw(deep && c.coin() ? std::min(deep + 4, 256) : 7);
        if (op.mode == "mv" && !names.table.count("bar") && ins.arg2.RequiresLookup()) a2 = c.draw(256);
      }
      Next n = Execute(c, t.now, op, a, a2, declared ? &yields : nullptr);
      if (n == kGone) continue;
      (n == kTaken ? away : on).runs.push_back(t);
    }
    Sound(c, on);
    if (branch) Sound(c, away);

    // What is not touched stays, and what is easily known is known.
    if (Neutral(op)) c.check(p.s == before, "changes what is known about the machine");
    if (op.mn == "lda" || op.mn == "ldx" || op.mn == "ldy") {
      int reg = op.mn == "lda" ? 0 : op.mn == "ldx" ? 1 : 2;
      if (op.mode[0] == '#' && !loose) {
        const RegisterValue& v = Reg(p.s, reg);
        c.check_f(v.HasValue() && (*v & Bits8(wide)) == arg, [&] { return fmt("%s is not known after loading a constant: ", kReg[reg]) + Show(v); });
        ++known;
      }
      ExecutionState s = p.s;
      Reg(s, reg) = Reg(before, reg);
      c.check(s == before, "a load changes more than its register");
    }
    int step = op.mn == "inx" || op.mn == "iny" || (op.mn == "inc" && op.mode == "A") ? 1 : op.mn == "dex" || op.mn == "dey" || (op.mn == "dec" && op.mode == "A") ? -1 : 0;
    if (step) {
      int reg = op.mn[2] == 'x' ? 1 : op.mn[2] == 'y' ? 2 : 0;
      BitState w = Width(before, reg);
      if (Reg(before, reg).HasValue() && (w == B_on || w == B_off)) {
        int want = (*Reg(before, reg) + step) & Bits8(w == B_off);
        const RegisterValue& v = Reg(p.s, reg);
        c.check_f(v.HasValue() && (*v & Bits8(w == B_off)) == want, [&] { return fmt("%s is not known after counting: ", kReg[reg]) + Show(v) + fmt(", want $%x", want); });
        ++known;
      }
    }
    if ((op.mn == "rep" || op.mn == "sep") && !loose) {
      BitState t = op.mn == "rep" ? B_off : B_on;
      StatusFlags want(before.Flags().EBit(), arg & 0x20 ? t : before.Flags().MBit(), arg & 0x10 ? t : before.Flags().XBit(), arg & 1 ? t : before.Flags().CBit());
      c.check_f(p.s.Flags() == want, [&] { return "the flags are " + Bits(p.s.Flags()) + ", want " + Bits(want); });
    }
    if (op.mn == "clc" || op.mn == "sec") {
      ExecutionState s = p.s;
      c.check(s.Flags().CBit() == (op.mn == "sec" ? B_on : B_off), "the carry bit is not known");
      s.Flags().SetCBit(before.Flags().CBit());
      c.check(s == before, "changes more than the carry bit");
    }
    stacked += op.mn[0] == 'p';
    // Go on.
    p.runs = on.runs;
    if (branch && (on.runs.empty() || (!away.runs.empty() && c.coin()))) {
      c.note("(taken)");
      p = away;
    }
    if (p.runs.empty()) break;
  }
  c.label(named ? "names as operands" : "constants only");
  c.nontrivial(known && stacked);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C38";
  cfg.rule = "sequences of up to 60 random instructions over the whole opcode table, decoded from bytes, with constant, named and unknown operands, executed on a tracked state and on four concrete machines; non-trivial: a register's value was known after a load or count, and something was pushed or pulled";
  cfg.tests = {{"run", run}};
  cfg.quick_cases = 60000;
  cfg.thorough_cases = 2000000;
  return pbt::main_(cfg, argc, argv);
}
