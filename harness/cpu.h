// The part of a 65816 that decides how wide instructions are: the E, M, X and
// carry bits and the stack, with everything else (register and memory contents,
// other flags) chosen at random.
#ifndef VERIF_CPU_H_
#define VERIF_CPU_H_
#include "pbt.h"
#include "ref65816.h"
#include "ref_parse.h"

namespace cpu {
using pbt::Case;

struct Cpu {
  Case& c;
  int e = 0, m = 0, x = 0, carry = 0;
  std::vector<uint8_t> stack;  // what has been pushed here; below it lies anything

  explicit Cpu(Case& c) : c(c) {}
  // Any state that a flag state allows (-1: either).
  void Enter(const ref::Mode3& f) {
    e = f.e < 0 ? c.draw(2) : f.e;
    m = f.m < 0 ? c.draw(2) : f.m;
    x = f.x < 0 ? c.draw(2) : f.x;
    if (e) m = x = 1;
    carry = c.draw(2);
  }
  bool Fits(const ref::Mode3& f) const { return (f.e < 0 || f.e == e) && (f.m < 0 || f.m == m) && (f.x < 0 || f.x == x); }
  uint8_t Any() { return c.draw(256); }
  uint8_t P() {
    uint8_t p = Any() & 0xce;
    return p | (m || e) << 5 | (x || e) << 4 | carry;
  }
  void Push(int n) { while (n--) stack.push_back(Any()); }
  uint8_t Pull() {
    if (stack.empty()) return Any();
    uint8_t b = stack.back();
    stack.pop_back();
    return b;
  }
  void Pull(int n) { while (n--) Pull(); }
  void SetP(uint8_t p) {
    carry = p & 1;
    m = e ? 1 : p >> 5 & 1;
    x = e ? 1 : p >> 4 & 1;
  }

  enum Next { kOn, kBranch, kCall, kStop };
  // Execute an instruction that has been fetched; calls are left to the caller.
  Next Step(const std::string& mn, uint32_t operand, const std::string& mode) {
    if (mn == "clc") carry = 0;
    else if (mn == "sec") carry = 1;
    else if (mn == "rep" || mn == "sep") {
      int v = mn == "sep";
      if (operand & 1) carry = v;
      if (!e && (operand & 0x20)) m = v;
      if (!e && (operand & 0x10)) x = v;
    } else if (mn == "xce") {
      std::swap(carry, e);
      if (e) m = x = 1;
    } else if (mn == "php") stack.push_back(P());
    else if (mn == "plp") SetP(Pull());
    else if (mn == "pha") Push(m ? 1 : 2);
    else if (mn == "phx" || mn == "phy") Push(x ? 1 : 2);
    else if (mn == "pla") Pull(m ? 1 : 2);
    else if (mn == "plx" || mn == "ply") Pull(x ? 1 : 2);
    else if (mn == "phb" || mn == "phk") Push(1);
    else if (mn == "plb") Pull(1);
    else if (mn == "phd" || mn == "pea" || mn == "pei" || mn == "per") Push(2);
    else if (mn == "pld") Pull(2);
    else if (mn == "txs" || mn == "tcs") stack.clear();
    else if (mn == "sta" && mode == "s") {
      // onto the stack
      for (int i = 0; i < (m ? 1 : 2); ++i) {
        size_t at = (operand & 255) + i;
        if (at >= 1 && at <= stack.size()) stack[stack.size() - at] = Any();
      }
    } else if (mn == "adc" || mn == "sbc" || mn == "cmp" || mn == "cpx" || mn == "cpy" || mn == "asl" || mn == "lsr" || mn == "rol" || mn == "ror") carry = c.draw(2);
    else if (mn == "bcc") return carry ? kOn : kBranch;
    else if (mn == "bcs") return carry ? kBranch : kOn;
    else if (mn == "bra" || mn == "brl") return kBranch;
    else if (mn == "jsr" || mn == "jsl" || mn == "brk" || mn == "cop") return kCall;
    else if (mn == "jmp" || mn == "rts" || mn == "rtl" || mn == "rti" || mn == "stp") return kStop;
    else if (mn != "per" && ref::Exists(mn, "r")) return c.coin() ? kBranch : kOn;
    return kOn;
  }
  // A call comes back with the mode as it was, or as declared.
  void Return(const ref::Mode3* yields) {
    if (yields) Enter(*yields);
    else carry = c.draw(2);
  }
};

}  // namespace cpu
#endif
