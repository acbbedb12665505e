// Generator for ROM files on disk.
#ifndef VERIF_ROM_FILE_H_
#define VERIF_ROM_FILE_H_
#include <cstdio>
#include <string>
#include <vector>
#include "pbt.h"
#include "ref_map.h"

namespace romfile {

using Bytes = std::vector<uint8_t>;

inline uint8_t content(uint64_t key, uint64_t off) { return pbt::mix(key * 0x1000003 + off) >> 24; }

// kind 0: checksum/complement pair valid; 1: both words broken; 2,3: only one
// of the two bytes valid (a sloppy reader could accept those).
inline void put_checksum(Bytes& d, size_t header_at, int kind, uint16_t sum) {
  if (d.size() < header_at + 0x30) return;
  uint8_t* p = &d[header_at];
  uint16_t comp = ~sum;
  p[0x2c] = comp & 0xff;
  p[0x2d] = comp >> 8;
  p[0x2e] = sum & 0xff;
  p[0x2f] = sum >> 8;
  if (kind == 1 || kind == 2) p[0x2e] ^= 1 << (sum % 8);
  if (kind == 1 || kind == 3) p[0x2f] ^= 1 << ((sum >> 8) % 8);
}

inline void write_file(const std::string& path, const Bytes& smc, const Bytes& d) {
  FILE* f = fopen(path.c_str(), "wb");
  if (!f) { perror(path.c_str()); _exit(99); }
  if (!smc.empty()) fwrite(smc.data(), 1, smc.size(), f);
  if (!d.empty()) fwrite(d.data(), 1, d.size(), f);
  fclose(f);
}

inline bool read_file(const std::string& path, Bytes* out) {
  FILE* f = fopen(path.c_str(), "rb");
  if (!f) return false;
  out->clear();
  uint8_t buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) out->insert(out->end(), buf, buf + n);
  fclose(f);
  return true;
}

// A loadable ROM image for the mapping, with distinctive contents.
inline Bytes image(ref::Map m, uint32_t size, uint64_t key) {
  Bytes d(size);
  for (uint32_t i = 0; i < size; ++i) d[i] = content(key, i);
  put_checksum(d, 0x7fb0, m == ref::LoRom ? 0 : 1, key * 40503);
  put_checksum(d, 0xffb0, m == ref::LoRom ? 1 : 0, key * 30011 + 7);
  return d;
}

inline Bytes smc_header(uint64_t key) {
  Bytes h(0x200);
  for (int i = 0; i < 0x200; ++i) h[i] = content(key ^ 0x5555, i);
  return h;
}

// An address that maps to image offset `target` (which must be mappable).
inline uint32_t addr_for(pbt::Case& c, ref::Map m, uint32_t target) {
  uint32_t bk, off;
  if (m == ref::LoRom) {
    bk = (target >> 15) & 0x7f;
    off = 0x8000 | (target & 0x7fff);
    if (bk > 0x7d || c.coin()) bk |= 0x80;
  } else {
    bk = (target >> 16) & 0x3f;
    off = target & 0xffff;
    bool high = m == ref::ExHiRom ? target < 0x400000 : (c.coin() || bk >= 0x3e);
    bool mirror = off >= 0x8000 && c.coin();
    if (!high && bk >= 0x3e) mirror = true;
    bk |= (high ? 0x80 : 0) | (mirror ? 0 : 0x40);
  }
  return bk << 16 | off;
}

// The number the next opened file would get: unchanged if no file is left open.
inline int next_fd() {
  int fd = open("/dev/null", O_RDONLY);
  if (fd >= 0) close(fd);
  return fd;
}
}  // namespace romfile
#endif
