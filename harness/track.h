// Concrete machines that run in step with a tracked state, and what the state
// claims about them.  (Used by C37 and C38.)
#ifndef VERIF_TRACK_H_
#define VERIF_TRACK_H_
#include "nsasm/execution_state.h"
#include "pbt.h"

namespace track {
using namespace nsasm;
using pbt::Case;
using pbt::fmt;

struct Machine {
  int e, m, x, c;
  int a, X, Y, b;               // registers; b is the data bank
  std::vector<uint8_t> stack;   // pushed since entry, top at the back
};
struct Run { Machine was, now; };
// An abstract state and the concrete machines that got there.
struct Pair { ExecutionState s; std::vector<Run> runs; };

inline const char* kReg[] = {"A", "X", "Y"};
inline bool Wide(const Machine& m, int reg) { return !(reg ? m.x : m.m); }
inline int& Reg(Machine& m, int reg) { return reg == 0 ? m.a : reg == 1 ? m.X : m.Y; }
inline RegisterValue& Reg(ExecutionState& s, int reg) { return reg == 0 ? s.Accumulator() : reg == 1 ? s.XRegister() : s.YRegister(); }
inline BitState Width(const ExecutionState& s, int reg) { return reg ? s.Flags().XBit() : s.Flags().MBit(); }
inline void Load(Machine& m, int reg, int v) {
  int& r = Reg(m, reg);
  if (Wide(m, reg)) r = v & 0xffff;
  else r = reg ? v & 0xff : (r & 0xff00) | (v & 0xff);
}
inline void Settle(Machine& m) {
  if (m.e) m.m = m.x = 1;
  if (m.x) m.X &= 0xff, m.Y &= 0xff;
}
inline uint8_t Pop(Case& c, Machine& m) {
  if (m.stack.empty()) return c.draw(256);  // the caller's bytes
  uint8_t v = m.stack.back();
  m.stack.pop_back();
  return v;
}
inline std::string Bits(const StatusFlags& f) {
  BitState b[] = {f.EBit(), f.MBit(), f.XBit(), f.CBit()};
  std::string r;
  for (int i = 0; i < 4; ++i) r += fmt("%c%c", "emxc"[i], "01o?"[b[i]]);
  return r;
}
inline std::string Show(const RegisterValue& v) { return v.type() == RegisterValue::T_value ? fmt("$%x", *v) : v.type() == RegisterValue::T_original ? "as on entry" : "unknown"; }
inline std::string Show(const StackValue& v) {
  static const char* n[] = {"unknown", "byte", "flags", "A high", "A low", "A", "X high", "X low", "X", "Y high", "Y low", "Y", "bank"};
  return v.type() == StackValue::T_byte ? fmt("$%02x", v.value()) : v.type() == StackValue::T_flags ? "flags " + Bits(v.flags()) : n[v.type()];
}
inline bool BitHolds(BitState b, int was, int now) { return b == B_on ? now == 1 : b == B_off ? now == 0 : b == B_original ? now == was : true; }

inline void CheckFlags(Case& c, const StatusFlags& f, const Run& r, const char* what) {
  const Machine &w = r.was, &n = r.now;
  c.check_f(BitHolds(f.EBit(), w.e, n.e) && BitHolds(f.MBit(), w.m, n.m) && BitHolds(f.XBit(), w.x, n.x) && BitHolds(f.CBit(), w.c, n.c),
            [&] { return std::string(what) + " are " + Bits(f) + fmt(", but entered with e%dm%dx%dc%d a machine has e%dm%dx%dc%d here", w.e, w.m, w.x, w.c, n.e, n.m, n.x, n.c); });
}
inline void CheckReg(Case& c, const RegisterValue& v, int was, int now, int mask, const char* name) {
  if (v.type() == RegisterValue::T_value) c.check_f((*v & mask) == (now & mask), [&] { return fmt("%s is claimed to be $%x, but a machine has $%x", name, *v, now & mask); });
  if (v.type() == RegisterValue::T_original) c.check_f((was & mask) == (now & mask), [&] { return fmt("%s is claimed to be as on entry, where it was $%x; a machine has $%x", name, was & mask, now & mask); });
}
inline void CheckByte(Case& c, const StackValue& v, const Run& r, uint8_t got) {
  int want = -1;
  switch (v.type()) {
    case StackValue::T_byte: want = v.value(); break;
    case StackValue::T_a_hi: want = r.was.a >> 8; break;
    case StackValue::T_a_lo: want = r.was.a & 255; break;
    case StackValue::T_x_hi: want = r.was.X >> 8; break;
    case StackValue::T_x_lo: want = r.was.X & 255; break;
    case StackValue::T_y_hi: want = r.was.Y >> 8; break;
    case StackValue::T_y_lo: want = r.was.Y & 255; break;
    case StackValue::T_dbr: want = r.was.b; break;
    case StackValue::T_flags: {
      StatusFlags f = v.flags();
      int m = got >> 5 & 1, x = got >> 4 & 1, k = got & 1;
      c.check_f(BitHolds(f.MBit(), r.was.m, m) && BitHolds(f.XBit(), r.was.x, x) && BitHolds(f.CBit(), r.was.c, k),
                [&] { return "pulled flags are claimed to be " + Bits(f) + fmt(", a machine pulls m%dx%dc%d", m, x, k); });
      break;
    }
    default: break;
  }
  c.check_f(want < 0 || want == got, [&] { return "the pulled byte is claimed to be " + Show(v) + fmt(" (%02x), a machine pulls %02x", want, got); });
}
inline void Sound(Case& c, Pair& p) {
  for (auto& r : p.runs) {
    CheckFlags(c, p.s.Flags(), r, "the flags");
    for (int i = 0; i < 3; ++i) CheckReg(c, Reg(p.s, i), Reg(r.was, i), Reg(r.now, i), Wide(r.now, i) ? 0xffff : 0xff, kReg[i]);
    CheckReg(c, p.s.DataBankRegister(), r.was.b, r.now.b, 0xff, "the bank");
  }
}
inline StatusFlags RandomFlags(Case& c) {
  int k = c.draw(12);
  if (k == 0) return StatusFlags(B_on);
  if (k <= 2) return StatusFlags();
  BitState v[] = {B_off, B_on, B_unknown, B_off, B_on};
  return StatusFlags(B_off, c.pick(v), c.pick(v), k < 5 ? c.pick(v) : B_unknown);
}
inline Pair Enter(Case& c) {
  StatusFlags f = RandomFlags(c);
  Pair p{ExecutionState(f), {}};
  bool orig = c.coin(4, 5);
  if (orig) {
    for (int i = 0; i < 3; ++i) Reg(p.s, i) = RegisterValue(RegisterValue::T_original);
    p.s.DataBankRegister() = RegisterValue(RegisterValue::T_original);
  }
  auto bit = [&](BitState b) { return b == B_on ? 1 : b == B_off ? 0 : (int)c.draw(2); };
  for (int i = 0; i < 4; ++i) {
    Machine m{};
    m.e = bit(f.EBit());
    m.m = m.e ? 1 : bit(f.MBit());
    m.x = m.e ? 1 : bit(f.XBit());
    m.c = bit(f.CBit());
    m.a = c.draw(0x10000), m.X = c.draw(0x10000), m.Y = c.draw(0x10000), m.b = c.draw(256);
    Settle(m);
    p.runs.push_back({m, m});
  }
  c.note("enter " + Bits(f) + (orig ? " with registers as on entry" : ""));
  return p;
}

}  // namespace track
#endif
