// Reference model of the SNES cartridge mappings, written from the hardware
// memory map (not from rom.cc): a table of bank regions.
#ifndef VERIF_REF_MAP_H_
#define VERIF_REF_MAP_H_
#include <cstdint>
#include <optional>

namespace ref {

enum Map { LoRom, HiRom, ExHiRom };

// Offset into the cartridge image for a 24-bit CPU address, or nullopt if the
// CPU does not see cartridge ROM there.
inline std::optional<uint64_t> RomOffset(uint32_t addr, Map map) {
  const uint32_t bank = (addr >> 16) & 0xff, off = addr & 0xffff;
  if (bank == 0x7e || bank == 0x7f) return std::nullopt;  // work RAM
  // Banks $00-$3f and their mirrors $80-$bf: the lower half is system area.
  const bool system_bank = (bank & 0x40) == 0;
  if (system_bank && off < 0x8000) return std::nullopt;
  switch (map) {
    case LoRom:
      // 32 KiB of ROM per bank, in the upper half only; $80+ mirrors $00+.
      if (off < 0x8000) return std::nullopt;
      return uint64_t(bank % 0x80) * 0x8000 + (off - 0x8000);
    case HiRom:
      // 64 KiB of ROM per bank; four mirrors of 64 banks.
      return uint64_t(bank % 0x40) * 0x10000 + off;
    case ExHiRom:
      // Banks $80-$ff see the first 4 MiB, banks $00-$7d the second 4 MiB.
      return uint64_t(bank % 0x40) * 0x10000 + off + (bank < 0x80 ? 0x400000 : 0);
  }
  return std::nullopt;
}

// Address arithmetic inside a bank.
inline uint32_t Wrap(uint32_t addr, int64_t delta) {
  int64_t low = (int64_t(addr & 0xffff) + delta) % 0x10000;
  if (low < 0) low += 0x10000;
  return (addr & 0xff0000) | uint32_t(low);
}

}  // namespace ref
#endif
