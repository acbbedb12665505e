// C02: SNES address -> ROM offset, exhaustively, against the memory-map table.
#include "nsasm/rom.h"
#include "pbt.h"
#include "ref_map.h"

using pbt::Case;
using pbt::fmt;

static const char* kName[] = {"LoROM", "HiROM", "ExHiROM"};
static const nsasm::Mapping kMap[] = {nsasm::kLoRom, nsasm::kHiRom, nsasm::kExHiRom};

static void bank(Case& c) {
  int m = c.index / 256, bank = c.index % 256;
  c.note(fmt("%s bank $%02x, all 65536 offsets", kName[m], bank));
  bool both = false;
  c.evals(65535);
  int errors = 0, reads = 0;
  for (uint32_t off = 0; off < 0x10000; ++off) {
    uint32_t a = uint32_t(bank) << 16 | off;
    auto want = ref::RomOffset(a, ref::Map(m));
    auto got = nsasm::SnesToROMAddress(nsasm::Address(a), kMap[m]);
    (want ? reads : errors)++;
    if (got.ok() != want.has_value())
      c.fail(fmt("%s $%06x: %s, want %s", kName[m], a, got.ok() ? fmt("offset 0x%zx", *got).c_str() : "error", want ? fmt("offset 0x%zx", (size_t)*want).c_str() : "error"));
    if (want && *got != *want) c.fail(fmt("%s $%06x: offset 0x%zx, want 0x%zx", kName[m], a, *got, (size_t)*want));
    if (!want && off % 257 == 0) {
      std::string s = got.error().SetLocation(std::string("rom")).ToString();
      c.check_f(s.find(fmt("rom:0x%06x: ", a)) == 0, [&] { return fmt("error for $%06x reads \"%s\"", a, s.c_str()); });
    }
  }
  both = errors && reads;
  c.nontrivial(reads > 0);
  c.label(both ? "bank with ROM and non-ROM" : reads ? "all ROM" : "no ROM");
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C02";
  cfg.rule = "complete enumeration: 3 mappings x 256 banks, each case checks all 65536 offsets; non-trivial: the bank exposes ROM";
  cfg.tests = {{"bank", bank, 768}};
  cfg.quick_wall = 600;
  return pbt::main_(cfg, argc, argv);
}
