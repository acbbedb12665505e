// C06: the identity sink accepts a write iff it matches the ROM.
#include "gen_addr.h"
#include "nsasm/rom.h"
#include "rom_file.h"

using pbt::Case;
using pbt::fmt;
using namespace romfile;

static const char* kName[] = {"LoROM", "HiROM", "ExHiROM"};
static const nsasm::Mapping kMap[] = {nsasm::kLoRom, nsasm::kHiRom, nsasm::kExHiRom};

static void identity(Case& c) {
  int mi = c.weighted({3, 3, 1});
  ref::Map m = ref::Map(mi);
  uint32_t size = m == ref::ExHiRom ? (c.coin(1, 8) ? 0x410000 : 0x18000) : 0x1000 * c.range(0x10, 0x20);
  uint64_t key = c.draw(1000);
  Bytes d = image(m, size, key);
  c.note(fmt("%s size=0x%x:", kName[mi], size));
  nsasm::RomIdentityTest sink(std::make_unique<nsasm::Rom>(kMap[mi], "r.sfc", Bytes(), d));
  for (auto more = c.many(10, 30); more.more();) {
    uint32_t a = c.coin(4, 5) ? addr_for(c, m, (c.coin(1, 4) ? size - 1 - c.range(0, 6) : (uint32_t)c.draw(size))) : gen::address(c);
    if (c.coin(1, 6)) a |= 0xfffa;
    int n = c.coin(4, 5) ? c.range(0, 8) : c.coin(1, 8) ? c.range(0x7ffe, 0x8003) : c.range(0, 300);
    Bytes bytes(n);
    bool ok = true, mapped = true;
    int first_bad = -1;
    for (int i = 0; i < n; ++i) {
      auto o = ref::RomOffset(ref::Wrap(a, i), m);
      if (o && *o < size) bytes[i] = d[*o];
      else mapped = ok = false;
    }
    int tweaks = c.weighted({4, 3, 1});
    for (int t = 0; t < tweaks && n > 0; ++t) {
      int at = c.coin(1, 3) ? n - 1 : c.range(0, n - 1);
      bytes[at] ^= 1 << c.range(0, 7);
    }
    for (int i = 0; i < n && mapped; ++i) {
      uint8_t want = d[*ref::RomOffset(ref::Wrap(a, i), m)];
      if (bytes[i] != want) { ok = false; if (first_bad < 0) first_bad = i; }
    }
    c.note(fmt(" $%06x+%d%s", a, n, !mapped ? " unmapped" : ok ? " same" : " differs"));
    auto r = sink.Write(nsasm::Address(a), bytes);
    c.evals(1);
    c.check_f(r.ok() == ok, [&] { return fmt("write at $%06x +%d: %s, want %s", a, n, r.ok() ? "accepted" : r.error().ToString().c_str(), ok ? "accepted" : "an error"); });
    c.label(!mapped ? "unmapped" : ok ? "identical" : "differs");
    if (mapped && !ok) {
      c.nontrivial();
      uint32_t where = ref::Wrap(a, first_bad);
      std::string msg = r.error().ToString();
      c.check_f(msg.find(fmt("$%06x", where)) != msg.npos, [&] { return fmt("first difference is at $%06x but the error says: %s", where, msg.c_str()); });
    }
  }
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C06";
  cfg.rule = "writes of ROM contents with zero, one or two flipped bits, at mapped, wrapping and unmapped addresses; non-trivial: a mapped write that differs from the ROM";
  cfg.tests = {{"identity", identity}};
  cfg.quick_cases = 30000;
  cfg.thorough_cases = 400000;
  return pbt::main_(cfg, argc, argv);
}
