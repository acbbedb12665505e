// Running the disassembler under test on a generated image.
#ifndef VERIF_DISASM_RUN_H_
#define VERIF_DISASM_RUN_H_
#include "cpu.h"
#include "disasm_gen.h"
#include "nsasm/disassemble.h"
#include "nsasm_map.h"

namespace dis {
inline uint32_t Num(nsasm::Address a) { return (uint32_t(a.Bank()) << 16) | a.BankAddress(); }
inline nsasm::Address Addr(uint32_t v) { return nsasm::Address(v >> 16, v & 0xffff); }

struct Source : public nsasm::InputSource {
  const Image& im;
  explicit Source(const Image& im) : im(im) {}
  std::string Path() const override { return "img.sfc"; }
  nsasm::ErrorOr<std::vector<uint8_t>> Read(nsasm::Address address, int length) const override {
    std::vector<uint8_t> r;
    for (int i = 0; i < length; ++i) {
      int v = im.at(Wrap(Num(address), i));
      if (v < 0) {
        nsasm::Error e("unreadable");
        e.SetLocation(Path(), Addr(Wrap(Num(address), i)));
        return std::move(e);
      }
      r.push_back(v);
    }
    return r;
  }
};

inline int Bit(nsasm::BitState b) { return b == nsasm::B_on ? 1 : b == nsasm::B_off ? 0 : -1; }
inline Flags Of(const nsasm::StatusFlags& f) { return {Bit(f.EBit()), Bit(f.MBit()), Bit(f.XBit()), Bit(f.CBit())}; }
inline nsasm::StatusFlags To(const Flags& f) {
  auto b = [](int v) { return v < 0 ? nsasm::B_unknown : v ? nsasm::B_on : nsasm::B_off; };
  return nsasm::StatusFlags(b(f.e), b(f.m), b(f.x), b(f.c));
}
inline bool Covers(const Flags& f, const cpu::Cpu& cpu, bool carry = true) {
  return (f.e < 0 || f.e == cpu.e) && (f.m < 0 || f.m == cpu.m) && (f.x < 0 || f.x == cpu.x) && (!carry || f.c < 0 || f.c == cpu.carry);
}
inline std::string Str(const Flags& f) {
  auto b = [](int v) { return v < 0 ? "?" : v ? "1" : "0"; };
  return fmt("e=%s m=%s x=%s c=%s", b(f.e), b(f.m), b(f.x), b(f.c));
}

static const char* kModeNames[] = {"unk", "emu", "native", "m8", "m16", "x8", "x16", "m8x8", "m8x16", "m16x8", "m16x16"};

inline std::map<nsasm::Address, nsasm::ReturnConvention> ToConvs(const Convs& k) {
  std::map<nsasm::Address, nsasm::ReturnConvention> r;
  for (auto& e : k) {
    if (e.second.noreturn) r[Addr(e.first)] = nsasm::ReturnConvention(nsasm::NoReturn());
    else if (e.second.yields) r[Addr(e.first)] = nsasm::ReturnConvention(To({e.second.mode.e, e.second.mode.m, e.second.mode.x, -1}));
  }
  return r;
}
inline Convs SomeConvs(Case& c, const Image& im) {
  Convs r;
  for (int i = c.draw(3); i > 0; --i) {
    Conv k;
    if (c.coin(1, 3)) k.noreturn = true;
    else {
      k.yields = true;
      const char* n = c.pick(kModeNames);
      ref::ModeByName(n, &k.mode);
      if (k.mode.e == 1) k.mode.m = k.mode.x = 1;
    }
    r[im.routines[c.draw(im.routines.size())]] = k;
  }
  return r;
}
inline std::string ShowConvs(const Convs& k) {
  std::string s;
  for (auto& e : k) s += fmt(" %06x:", e.first) + (e.second.noreturn ? "noreturn" : fmt("yields e=%d m=%d x=%d", e.second.mode.e, e.second.mode.m, e.second.mode.x));
  return s;
}

// All that can be seen of a result.
inline std::string Dump(const nsasm::DisassemblyMap& m) {
  std::string s;
  for (auto& e : m)
    s += fmt("%06x ", Num(e.first)) + e.second.label + (e.second.is_entry ? "* " : " ") + e.second.instruction.ToString() + " | " + e.second.current_execution_state.Flags().ToString() + " | " +
         e.second.next_execution_state.Flags().ToString() + "\n";
  return s;
}
}  // namespace dis
#endif
