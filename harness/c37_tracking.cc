// C37: what an execution state claims about registers and stack, against
// concrete machines that run the same history.
#include <deque>

#include "track.h"

using namespace track;

namespace {

// A width changed: what was known about the registers is for the old width.
void Forget(ExecutionState& s) {
  for (int i = 0; i < 3; ++i) Reg(s, i) = RegisterValue();
}

// One step on a state and its machines.
int Step(Case& c, Pair& p) {
  ExecutionState& s = p.s;
  int what = c.weighted({4, 4, 4, 5, 1, 2, 1, 2, 3, 3, 2, 1, 1, 1, 1, 3});
  int reg = c.draw(3);
  switch (what) {
    case 0:
      c.note("php");
      s.PushFlags();
      for (auto& r : p.runs) r.now.stack.push_back((c.draw(256) & 0xce) | r.now.m << 5 | r.now.x << 4 | r.now.c);
      break;
    case 1:
      c.note("plp");
      s.PullFlags();
      for (auto& r : p.runs) {
        uint8_t b = Pop(c, r.now);
        r.now.m = b >> 5 & 1, r.now.x = b >> 4 & 1, r.now.c = b & 1;
        Settle(r.now);
      }
      Forget(s);
      break;
    case 2:
      c.note(fmt("push %s", kReg[reg]));
      if (reg == 0) s.PushAccumulator();
      else if (reg == 1) s.PushXRegister();
      else s.PushYRegister();
      for (auto& r : p.runs) {
        int v = Reg(r.now, reg);
        if (Wide(r.now, reg)) r.now.stack.push_back(v >> 8);
        r.now.stack.push_back(v & 255);
      }
      break;
    case 3:
      c.note(fmt("pull %s", kReg[reg]));
      if (reg == 0) s.PullAccumulator();
      else if (reg == 1) s.PullXRegister();
      else s.PullYRegister();
      for (auto& r : p.runs) {
        int v = Pop(c, r.now);
        if (Wide(r.now, reg)) v |= Pop(c, r.now) << 8;
        Load(r.now, reg, v);
      }
      break;
    case 4: {
      c.note("push bank");
      s.GetStack().PushDBR(s.DataBankRegister());
      for (auto& r : p.runs) r.now.stack.push_back(r.now.b);
      break;
    }
    case 5: {
      StackValue v = s.GetStack().PullByte();
      c.note("pull byte: " + Show(v));
      for (auto& r : p.runs) CheckByte(c, v, r, Pop(c, r.now));
      break;
    }
    case 6: {
      bool known = c.coin();
      uint8_t v = c.draw(256);
      c.note(known ? fmt("push byte $%02x", v) : "push some byte");
      if (!known) s.GetStack().PushUnknownByte();
      else if (c.coin()) s.GetStack().PushByte(v);
      else s.GetStack().PushByte(absl::optional<uint8_t>(v));
      for (auto& r : p.runs) r.now.stack.push_back(known ? v : c.draw(256));
      break;
    }
    case 7: {
      bool known = c.coin();
      uint16_t v = c.draw(0x10000);
      c.note(known ? fmt("push word $%04x", v) : "push some word");
      if (!known) {
        if (c.coin()) s.GetStack().PushUnknownWord();
        else s.GetStack().PushWord(absl::optional<uint16_t>());
      } else if (c.coin()) s.GetStack().PushWord(v);
      else s.GetStack().PushWord(absl::optional<uint16_t>(v));
      for (auto& r : p.runs) {
        int w = known ? v : c.draw(0x10000);
        r.now.stack.push_back(w >> 8);
        r.now.stack.push_back(w & 255);
      }
      break;
    }
    case 8: {
      bool known = c.coin(3, 4);
      int v = c.draw(0x10000);
      if (Width(s, reg) == B_on) v &= 0xff;
      c.note(known ? fmt("load %s with $%x", kReg[reg], v) : fmt("load %s", kReg[reg]));
      if (known) Reg(s, reg) = RegisterValue((uint16_t)v);
      else if (reg == 0) s.WipeAccumulator();
      else Reg(s, reg) = RegisterValue();
      for (auto& r : p.runs) Load(r.now, reg, known ? v : c.draw(0x10000));
      break;
    }
    case 9: {
      int by = c.coin() ? 1 : -1;
      if (c.coin(1, 4)) by = c.range(-0x10000, 0x10000);
      c.note(fmt("add %d to %s", by, kReg[reg]));
      Reg(s, reg).Add(by, Width(s, reg) == B_on ? 0xff : 0xffff);
      for (auto& r : p.runs) Load(r.now, reg, Reg(r.now, reg) + by);
      break;
    }
    case 10: case 11: {
      int to = c.draw(3);
      BitState b = to == 2 ? B_unknown : to ? B_on : B_off;
      int which = c.draw(3);
      c.note(fmt("%c %s", "mxc"[which], to == 2 ? "lost" : to ? "set" : "clear"));
      if (which == 0) s.Flags().SetMBit(b);
      else if (which == 1) s.Flags().SetXBit(b);
      else if (to == 2) s.WipeCarry();
      else s.Flags().SetCBit(b);
      for (auto& r : p.runs) {
        int v = to == 2 ? (int)c.draw(2) : to;
        (which == 0 ? r.now.m : which == 1 ? r.now.x : r.now.c) = v;
        Settle(r.now);
      }
      if (which < 2) Forget(s);
      break;
    }
    case 12:
      c.note("exchange");
      s.Flags().ExchangeCE();
      for (auto& r : p.runs) std::swap(r.now.c, r.now.e), Settle(r.now);
      Forget(s);
      break;
    case 13: {
      bool known = c.coin();
      int v = c.draw(256);
      c.note(known ? fmt("bank $%02x", v) : "load bank");
      s.DataBankRegister() = known ? RegisterValue((uint16_t)v) : RegisterValue();
      for (auto& r : p.runs) r.now.b = known ? v : c.draw(256);
      break;
    }
    case 14:
      c.note("lose the stack");
      s.GetStack().Abandon();
      for (auto& r : p.runs) {
        int n = c.draw(4);
        r.now.stack.clear();
        for (int i = 0; i < n; ++i) r.now.stack.push_back(c.draw(256));
      }
      break;
    default: {
      // pull something into something
      c.note("push and pull the flags");
      s.PushFlags();
      StackValue v = s.GetStack().PullByte();
      (void)v;
      break;
    }
  }
  Sound(c, p);
  return what;
}

void history(Case& c) {
  std::deque<Pair> pool;
  pool.push_back(Enter(c));
  int pushes = 0, pulls = 0, merges = 0, claims = 0;
  for (auto more = c.many(14, 60); more.more();) {
    Pair& p = pool[c.draw(pool.size())];
    int k = c.draw(10);
    if (k == 0 && pool.size() < 4) {
      c.note(fmt("fork into %zu", pool.size()));
      pool.push_back(p);
      continue;
    }
    if (k == 1 && pool.size() > 1) {
      Pair& o = pool[c.draw(pool.size())];
      if (&o == &p) continue;
      c.note("merge");
      ExecutionState was = p.s;
      p.s |= o.s;
      c.check((was | o.s) == p.s, "| and |= disagree");
      for (size_t i = 0; i < o.runs.size() && p.runs.size() < 12; ++i) p.runs.push_back(o.runs[i]);
      Sound(c, p);
      ++merges;
      continue;
    }
    int w = Step(c, p);
    pushes += w == 0 || w == 2 || w == 4 || w == 6 || w == 7;
    pulls += w == 1 || w == 3 || w == 5;
    for (int i = 0; i < 3; ++i) claims += Reg(p.s, i).type() != RegisterValue::T_unknown;
  }
  c.label(merges ? "merged" : "straight");
  c.nontrivial(pushes && pulls && claims);
}

// What is pushed comes back: the same things pulled in the opposite order.  The
// same with two states whose pushes differ in places, merged before the pulls.
void lifo(Case& c) {
  StatusFlags f = RandomFlags(c);
  bool two = c.coin();
  ExecutionState s[2] = {ExecutionState(f), ExecutionState(f)};
  if (c.coin(1, 6)) {
    bool both = c.coin();
    for (auto& t : s) {
      t.Flags().SetMBit(B_unknown);
      if (both) t.Flags().SetXBit(B_unknown);
    }
  }
  struct Thing { int kind; RegisterValue reg[2]; int val[2]; BitState carry[2]; };
  std::vector<Thing> things;
  c.note(fmt("%s, flags ", two ? "two states" : "one state") + Bits(f));
  for (auto more = c.many(4, 14); more.more();) {
    Thing t{};
    t.kind = c.draw(7);
    bool differ = two && c.coin(1, 3);
    for (int i = 0; i < 2; ++i) {
      if (i && !differ) {
        t.reg[1] = t.reg[0], t.val[1] = t.val[0], t.carry[1] = t.carry[0];
        continue;
      }
      int r = c.draw(3);
      t.reg[i] = r == 0 ? RegisterValue() : r == 1 ? RegisterValue(RegisterValue::T_original) : RegisterValue((uint16_t)c.draw(0x10000));
      t.val[i] = c.coin(1, 4) ? -1 : (int)c.draw(0x10000);
      t.carry[i] = c.coin() ? B_on : B_off;
    }
    for (int i = 0; i < 2; ++i) {
      auto opt8 = t.val[i] < 0 ? absl::optional<uint8_t>() : absl::optional<uint8_t>((uint8_t)t.val[i]);
      auto opt16 = t.val[i] < 0 ? absl::optional<uint16_t>() : absl::optional<uint16_t>((uint16_t)t.val[i]);
      switch (t.kind) {
        case 0: s[i].Accumulator() = t.reg[i]; s[i].PushAccumulator(); break;
        case 1: s[i].XRegister() = t.reg[i]; s[i].PushXRegister(); break;
        case 2: s[i].YRegister() = t.reg[i]; s[i].PushYRegister(); break;
        case 3: s[i].DataBankRegister() = t.reg[i]; s[i].GetStack().PushDBR(t.reg[i]); break;
        case 4: s[i].Flags().SetCBit(t.carry[i]); s[i].PushFlags(); break;
        case 5: s[i].GetStack().PushByte(opt8); break;
        default: s[i].GetStack().PushWord(opt16); break;
      }
    }
    static const char* n[] = {"A", "X", "Y", "bank", "flags", "byte", "word"};
    auto show = [&](int i) { return t.kind < 4 ? Show(t.reg[i]) : t.kind == 4 ? fmt("c%d", t.carry[i] == B_on) : t.val[i] < 0 ? "?" : fmt("%x", t.val[i]); };
    c.note(std::string("push ") + n[t.kind] + " " + show(0) + (differ ? " / " + show(1) : ""));
    things.push_back(t);
  }
  // A register whose width is not known makes the depth unknown.
  bool lost = false;
  for (auto& t : things) lost |= t.kind < 3 && Width(s[0], t.kind) == B_unknown;
  ExecutionState m = two ? s[0] | s[1] : s[0];
  m.Flags().SetCBit(B_unknown);
  bool differ = false;
  for (auto& t : things) differ |= t.reg[0] != t.reg[1] || t.val[0] != t.val[1] || t.carry[0] != t.carry[1];
  c.nontrivial(things.size() > 1 && !lost);
  c.label(lost ? "depth lost" : two && differ ? "merged" : "kept");
  for (size_t i = things.size(); i-- > 0;) {
    const Thing& t = things[i];
    if (t.kind < 3) {
      BitState w = Width(s[0], t.kind);
      // What can be kept of a register, by its width.
      auto kept = [&](int k) -> RegisterValue {
        const RegisterValue& r = t.reg[k];
        if (r.type() == RegisterValue::T_value) return w == B_on ? RegisterValue((uint16_t)(*r & 0xff)) : w == B_off ? r : RegisterValue();
        return r;
      };
      RegisterValue want = kept(0) == kept(1) ? kept(0) : RegisterValue();
      // (two halves of a word that differ in one only)
      if (w == B_off && t.reg[0].type() != t.reg[1].type()) want = RegisterValue();
      Reg(m, t.kind) = RegisterValue();
      if (t.kind == 0) m.PullAccumulator();
      else if (t.kind == 1) m.PullXRegister();
      else m.PullYRegister();
      if (lost) want = RegisterValue();
      c.check_f(Reg(m, t.kind) == want, [&] { return fmt("%s comes back as ", kReg[t.kind]) + Show(Reg(m, t.kind)) + ", want " + Show(want); });
      continue;
    }
    auto byte = [&](const char* what, int v0, int v1) {
      StackValue v = m.GetStack().PullByte();
      bool known = !lost && v0 >= 0 && v0 == v1;
      c.check_f(known ? v.type() == StackValue::T_byte && v.value() == v0 : v.type() == StackValue::T_unknown,
                [&] { return fmt("%s comes back as ", what) + Show(v) + (known ? fmt(", want $%02x", v0) : ", want unknown"); });
    };
    auto part = [](int v, int shift) { return v < 0 ? -1 : v >> shift & 255; };
    if (t.kind == 3) {
      bool orig = t.reg[0] == t.reg[1] && t.reg[0].type() == RegisterValue::T_original;
      if (orig && !lost) {
        StackValue v = m.GetStack().PullByte();
        c.check_f(v.type() == StackValue::T_dbr, [&] { return "the bank comes back as " + Show(v) + ", want it as on entry"; });
      } else {
        auto val = [&](int k) { return t.reg[k].HasValue() ? *t.reg[k] & 255 : -1; };
        byte("the bank", val(0), val(1));
      }
    } else if (t.kind == 4) {
      StackValue v = m.GetStack().PullByte();
      StatusFlags want = s[0].Flags();
      want.SetCBit(t.carry[0] == t.carry[1] ? t.carry[0] : B_unknown);
      c.check_f(lost ? v.type() == StackValue::T_unknown : v.type() == StackValue::T_flags && v.flags() == want, [&] { return "flags come back as " + Show(v) + ", want " + (lost ? "unknown" : Bits(want)); });
    } else if (t.kind == 5) {
      byte("the byte", part(t.val[0], 0), part(t.val[1], 0));
    } else {
      byte("the low byte", part(t.val[0], 0), part(t.val[1], 0));
      byte("the high byte", part(t.val[0], 8), part(t.val[1], 8));
    }
  }
  // Nothing is left.
  StackValue v = m.GetStack().PullByte();
  c.check_f(v.type() == StackValue::T_unknown, [&] { return "below the bottom is " + Show(v); });
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C37";
  cfg.rule = "histories of stack, register and flag operations with forks and merges, run on four concrete machines at once; and pushes undone by pulls, of one state or two merged ones; non-trivial: the history pushes and pulls and claims something about a register, or at least two things were pushed at known widths";
  cfg.tests = {{"history", history, 0, 3}, {"lifo", lifo, 0, 2}};
  cfg.quick_cases = 150000;
  cfg.thorough_cases = 3000000;
  return pbt::main_(cfg, argc, argv);
}
