// C03: reads through a mapped ROM equal byte-by-byte mapping.
#include "gen_addr.h"
#include "nsasm/rom.h"
#include "ref_map.h"

using pbt::Case;
using pbt::fmt;

static const char* kName[] = {"LoROM", "HiROM", "ExHiROM"};
static const nsasm::Mapping kMap[] = {nsasm::kLoRom, nsasm::kHiRom, nsasm::kExHiRom};

static uint8_t content(uint64_t key, uint64_t off) { return pbt::mix(key ^ off) >> 24; }

static void reads(Case& c) {
  int m = c.weighted({1, 1, 1});
  // ROM image sizes, in bytes; also images that end inside a mapped bank.
  static const uint32_t small[] = {0x10000, 0x8000, 0x18000, 0x20000, 0x40000, 0x11000, 0x80000};
  uint32_t size;
  switch (c.weighted({6, 2, 1})) {
    case 0: size = c.pick(small); break;
    case 1: size = 0x1000 * c.range(1, 64) + (c.coin(1, 4) ? c.range(0, 0xfff) : 0); break;
    default: size = m == 2 ? 0x400000 + 0x1000 * c.range(0, 0x60) : 0x1000 * c.range(64, 256); break;
  }
  uint64_t key = 77;
  std::vector<uint8_t> data(size);
  for (uint32_t i = 0; i < size; ++i) data[i] = content(key, i);
  std::vector<uint8_t> header(c.coin(1, 4) ? 0x200 : 0, 0xee);
  c.note(fmt("%s size=0x%x:", kName[m], size));
  nsasm::Rom rom(kMap[m], "dir/game.sfc", header, data);
  c.check(rom.Path() == "dir/game.sfc", "Path() must be the path given");
  for (auto more = c.many(12, 40); more.more();) {
    uint32_t a;
    int n;
    if (c.coin(2, 3)) {
      // an address that maps into the image
      uint32_t bk = 0, off = 0;
      uint32_t target = c.coin(1, 3) ? size - std::min<uint32_t>(size, c.range(0, 8)) : (uint32_t)c.draw(size);
      if (m == 0) { bk = target >> 15; off = 0x8000 | (target & 0x7fff); if (bk > 0x7d || c.coin()) bk |= 0x80; }
      else if (m == 1) { bk = (target >> 16) & 0x3f; off = target & 0xffff; bk |= c.coin() ? 0xc0 : bk < 0x3e ? 0x40 : 0xc0; if (off >= 0x8000 && c.coin()) bk &= 0xbf; }
      else { bk = (target >> 16) & 0x3f; off = target & 0xffff; bk |= target < 0x400000 ? 0xc0 : bk < 0x3e ? 0x40 : 0; }
      if (c.coin(1, 4)) off = c.coin() ? 0xffff - c.range(0, 5) : 0x8000 + c.range(0, 5);
      a = bk << 16 | (off & 0xffff);
    } else {
      a = gen::address(c);
    }
    switch (c.weighted({5, 3, 2, 2, 1, 1})) {
      case 0: n = c.range(1, 6); break;
      case 1: n = c.range(0, 300); break;
      case 2: n = (int)((0x10000 - (a & 0xffff)) + c.range(0, 8) - 4); break;  // to the end of the bank
      case 3: n = (int)(0x8000 + c.range(0, 8) - 4); break;
      case 4: n = (int)(0x10000 * c.range(1, 2) + c.range(0, 12) - 4); break;
      default: n = -(int)c.range(0, 5); break;
    }
    auto got = rom.Read(nsasm::Address(a), n);
    c.evals(1);
    c.note(fmt(" $%06x+%d", a, n));
    if (n < 0) {
      c.check(!got.ok(), "a negative length must be an error");
      c.label("negative length");
      continue;
    }
    std::vector<uint8_t> want;
    bool ok = true;
    for (int i = 0; ok && i < n; ++i) {
      auto o = ref::RomOffset(ref::Wrap(a, i), ref::Map(m));
      if (!o || *o >= size) ok = false;
      else want.push_back(content(key, *o));
    }
    bool wraps = (a & 0xffff) + (uint32_t)n > 0x10000;
    c.label(std::string(ok ? "ok" : "error") + (wraps ? " wrapping" : ""));
    if (n > 0 && ok && wraps) c.nontrivial();
    if (n > 0 && !ok && ref::RomOffset(a, ref::Map(m))) c.nontrivial();
    c.check_f(got.ok() == ok, [&] { return fmt("%s image of 0x%x bytes, read $%06x +%d: %s, want %s", kName[m], size, a, n, got.ok() ? "data" : got.error().ToString().c_str(), ok ? "data" : "an error"); });
    if (!ok) {
      // A position in the error is one of the addresses asked for.
      std::string e = got.error().ToString();
      c.check_f(e.find("dir/game.sfc:") == 0, [&] { return "error does not name the ROM: " + e; });
      unsigned at = 0;
      c.check_f(sscanf(e.c_str(), "dir/game.sfc:0x%x: ", &at) == 1, [&] { return "error does not name an address: " + e; });
      bool inside = (at >> 16) == (a >> 16) && ((at - a) & 0xffff) < (uint32_t)n;
      c.check_f(inside, [&] { return fmt("read $%06x +%d: the error is about another place: ", a, n) + e; });
      continue;
    }
    c.check_f(got->size() == want.size(), [&] { return fmt("read $%06x +%d returned %zu bytes", a, n, got->size()); });
    for (int i = 0; i < n; ++i)
      if ((*got)[i] != want[i]) c.fail(fmt("%s read $%06x +%d: byte %d is 0x%02x, want 0x%02x", kName[m], a, n, i, (*got)[i], want[i]));
    if (n >= 1 && n <= 3) {
      auto v = n == 1 ? rom.ReadByte(nsasm::Address(a)) : n == 2 ? rom.ReadWord(nsasm::Address(a)) : rom.ReadLong(nsasm::Address(a));
      int w = 0;
      for (int i = n - 1; i >= 0; --i) w = w * 256 + want[i];
      c.check_f(v.ok() && *v == w, [&] { return fmt("%d-byte value at $%06x: want 0x%x", n, a, w); });
    }
  }
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C03";
  cfg.rule = "random mapping, image size and list of (address,length) reads, biased to bank ends, image end and lengths around 32/64 KiB; non-trivial: a successful read that wraps inside its bank, or a failing read whose first byte is mapped";
  cfg.tests = {{"reads", reads}};
  cfg.quick_cases = 6000;
  cfg.thorough_cases = 300000;
  return pbt::main_(cfg, argc, argv);
}
