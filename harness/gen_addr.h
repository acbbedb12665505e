// Generators for 24-bit addresses that favour the places where mappings and
// wrapping change behaviour.
#ifndef VERIF_GEN_ADDR_H_
#define VERIF_GEN_ADDR_H_
#include "pbt.h"

namespace gen {

inline uint32_t bank(pbt::Case& c) {
  if (c.coin(1, 2)) return c.range(0, 255);
  static const int edge[] = {0x00, 0x01, 0x3f, 0x40, 0x41, 0x7d, 0x7e, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xc1, 0xfe, 0xff, 0x20};
  return c.pick(edge);
}

inline uint32_t offset16(pbt::Case& c) {
  switch (c.weighted({3, 3, 2})) {
    case 0: return c.range(0, 0xffff);
    case 1: {
      static const int edge[] = {0x0000, 0x8000, 0x7fff, 0xffff, 0x0001, 0x8001, 0xfffe, 0x00ff, 0x0100};
      return c.pick(edge);
    }
    default: {
      static const int edge[] = {0x0000, 0x8000, 0x10000};
      return (uint32_t)(c.pick(edge) + c.range(0, 40) - 20) & 0xffff;
    }
  }
}

inline uint32_t address(pbt::Case& c) { uint32_t b = bank(c); return (b << 16) | offset16(c); }

// Any int, favouring small magnitudes, powers of two and the extremes.
inline int any_int(pbt::Case& c) {
  switch (c.weighted({3, 3, 2, 1, 1})) {
    case 0: return (int)c.range(0, 64) * (c.coin() ? -1 : 1);
    case 1: return (int)c.range(-70000, 70000);
    case 2: { int64_t p = int64_t(1) << c.range(0, 31); int64_t v = (c.coin() ? -p : p) + c.range(0, 2) - 1; return (int)std::max<int64_t>(INT32_MIN, std::min<int64_t>(INT32_MAX, v)); }
    case 3: return (int)(uint32_t)c.draw(uint64_t(1) << 32);
    default: { static const int e[] = {INT32_MIN, INT32_MAX, INT32_MIN + 1, 0xffff, -0xffff, 0x10000, -0x10000, 0x1000000}; return c.pick(e); }
  }
}

}  // namespace gen
#endif
