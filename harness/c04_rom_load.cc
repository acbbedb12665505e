// C04: which files load, as which mapping, with which contents.
#include "gen_addr.h"
#include "nsasm/rom.h"
#include "rom_file.h"

using pbt::Case;
using pbt::fmt;
using namespace romfile;

// Faults, injected into the calls the loader makes (-Wl,--wrap).
enum { kFopen, kFseek, kFtell, kFread, kCalls };
static const char* const kCallName[] = {"fopen", "fseek", "ftell", "fread"};
static struct { bool armed; int call, nth; size_t keep; bool fired; FILE* broken; int seen[kCalls]; } g_fault;
static bool Fault(int call) {
  if (!g_fault.armed || g_fault.call != call || ++g_fault.seen[call] != g_fault.nth) return false;
  return g_fault.fired = true;
}
extern "C" {
FILE* __real_fopen(const char*, const char*);
int __real_fseek(FILE*, long, int);
long __real_ftell(FILE*);
size_t __real_fread(void*, size_t, size_t, FILE*);
FILE* __wrap_fopen(const char* p, const char* m) { return Fault(kFopen) ? (errno = EMFILE, nullptr) : __real_fopen(p, m); }
int __wrap_fseek(FILE* f, long o, int w) { return Fault(kFseek) ? (errno = EIO, -1) : __real_fseek(f, o, w); }
long __wrap_ftell(FILE* f) { return Fault(kFtell) ? (errno = EIO, -1) : __real_ftell(f); }
// Once a read has failed, nothing more can be read from the file.
size_t __wrap_fread(void* p, size_t size, size_t n, FILE* f) {
  if (g_fault.broken && f == g_fault.broken) return 0;
  if (!Fault(kFread)) return __real_fread(p, size, n, f);
  g_fault.broken = f;
  return __real_fread(p, size, std::min(n, g_fault.keep), f) - (n <= g_fault.keep && n > 0);
}
}

static void faults(Case& c) {
  std::string path = c.scratch + "/fault.bin";
  uint32_t payload = 0x1000 * c.range(0x10, 0x18);
  bool with_smc = c.coin(1, 2);
  uint64_t key = c.draw(100);
  ref::Map m = c.coin() ? ref::LoRom : ref::HiRom;
  Bytes d = image(m, payload, key);
  write_file(path, with_smc ? smc_header(key) : Bytes(), d);
  g_fault = {};
  g_fault.call = c.weighted({1, 2, 2, 4});
  g_fault.nth = c.range(1, g_fault.call == kFseek || g_fault.call == kFread ? 3 : 1);
  g_fault.keep = c.coin() ? 0 : c.coin() ? c.range(0, 0x1ff) : c.draw(payload);
  c.note(fmt("call %d of %s fails (%zu bytes), 0x%x bytes%s", g_fault.nth, kCallName[g_fault.call], g_fault.keep, payload, with_smc ? " and a copier header" : ""));
  int fd = next_fd();
  g_fault.armed = true;
  auto r = nsasm::LoadRomFile(path);
  g_fault.armed = false;
  g_fault.broken = nullptr;
  c.check(next_fd() == fd, "a file was left open");
  c.label(std::string(g_fault.fired ? "failed " : "no such call ") + kCallName[g_fault.call]);
  c.nontrivial(g_fault.fired);
  if (!r.ok()) {
    c.check(g_fault.fired, "an error without a fault: " + r.error().ToString());
    c.check(r.error().ToString().find(path + ": ") == 0, "error must name the path: " + r.error().ToString());
    return;
  }
  // It may have found another way, but not invented contents.
  for (int i = 0; i < 200; ++i) {
    uint32_t o = i < 8 ? payload - 1 - i : i < 16 ? i : (uint32_t)c.draw(payload), a = addr_for(c, m, o);
    auto v = (*r)->ReadByte(nsasm::Address(a));
    c.check_f(v.ok() && *v == d[o], [&] { return fmt("loaded, but $%06x reads wrong", a); });
  }
}

static void load(Case& c) {
  std::string path = c.scratch + "/rom.bin";
  unlink(path.c_str());
  int kind = c.weighted({10, 3, 3, 1, 1});
  if (kind == 4) {
    int which = c.range(0, 2);
    path = which == 0 ? c.scratch + "/absent.bin" : which == 1 ? c.scratch : c.scratch + "/no/such/dir.bin";
    c.note("load unreadable path kind " + std::to_string(which));
    int fd = next_fd();
    auto r = nsasm::LoadRomFile(path);
    c.check(next_fd() == fd, "a file was left open");
    c.check(!r.ok(), "a missing file or directory must be an error");
    c.check(r.error().ToString().find(path + ": ") == 0, "error must name the path: " + r.error().ToString());
    c.label("unreadable path");
    return;
  }
  uint32_t payload;
  int extra = c.coin(1, 3) ? 0x200 : 0;
  switch (kind) {
    case 0: payload = 0x1000 * c.range(0x10, 0x40); break;
    case 1: payload = 0x1000 * c.range(0, 0x14); break;  // around the 64 KiB minimum
    case 2: {  // sizes that are not a whole number of pages
      payload = 0x1000 * c.range(0, 0x20);
      static const int odd[] = {1, 0x1ff, 0x201, 0x400, 0x800, 0xfff, 0x100, 0xe00};
      extra = c.coin() ? c.pick(odd) : c.range(0, 0xfff);
      break;
    }
    default: payload = 0x400000 + 0x1000 * (c.range(0, 8) - 4); break;  // around the 4 MiB ExHiROM limit
  }
  uint64_t key = c.draw(1 << 16);
  Bytes d(payload);
  if (payload < 0x100000) for (uint32_t i = 0; i < payload; ++i) d[i] = content(key, i);
  else for (uint32_t i = 0; i < payload; i += 61) d[i] = content(key, i);
  int lo = c.weighted({4, 3, 1, 1}), hi = c.weighted({4, 3, 1, 1});
  put_checksum(d, 0x7fb0, lo, key * 40503);
  put_checksum(d, 0xffb0, hi, key * 30011 + 7);
  Bytes smc(extra, 0);
  for (int i = 0; i < extra; ++i) smc[i] = content(key + 1, i);
  write_file(path, smc, d);
  uint32_t fsize = payload + extra;
  c.note(fmt("file of 0x%x bytes, lo checksum kind %d, hi checksum kind %d", fsize, lo, hi));
  // The model, on the whole file.
  Bytes file = smc;
  file.insert(file.end(), d.begin(), d.end());
  bool whole = fsize % 0x1000 == 0, with_smc = fsize % 0x1000 == 0x200;
  bool want = false;
  ref::Map m = ref::LoRom;
  size_t base = with_smc ? 0x200 : 0;
  if ((whole || with_smc) && fsize - base >= 0x10000) {
    auto good = [&](size_t at) {
      const uint8_t* p = &file[base + at];
      return (p[0] ^ p[2]) == 0xff && (p[1] ^ p[3]) == 0xff;
    };
    bool l = good(0x7fdc), h = good(0xffdc);
    want = l != h;
    m = l ? ref::LoRom : fsize - base < 0x400000 ? ref::HiRom : ref::ExHiRom;
  }
  c.label(want ? (m == ref::LoRom ? "LoROM" : m == ref::HiRom ? "HiROM" : "ExHiROM") : "rejected");
  if (want && with_smc) c.label("with copier header");
  int fd = next_fd();
  auto r = nsasm::LoadRomFile(path);
  c.check(next_fd() == fd, "a file was left open");
  c.check_f(r.ok() == want, [&] { return fmt("load %s, want %s", r.ok() ? "succeeded" : r.error().ToString().c_str(), want ? "success" : "an error"); });
  if (!want) {
    if ((whole || with_smc) && fsize >= 0x10000) c.nontrivial();
    c.check(r.error().ToString().find(path + ": ") == 0, "error must name the path: " + r.error().ToString());
    return;
  }
  c.nontrivial();
  const nsasm::Rom& rom = **r;
  c.check(rom.Path() == path, "Path() of the loaded ROM is " + rom.Path());
  auto probe = [&](uint32_t a) {
    auto o = ref::RomOffset(a, m);
    bool ok = o && *o < fsize - base;
    auto v = rom.ReadByte(nsasm::Address(a));
    c.evals(1);
    if (v.ok() != ok || (ok && *v != file[base + *o]))
      c.fail(fmt("$%06x reads %s, want %s", a, v.ok() ? fmt("0x%02x", *v).c_str() : "error", ok ? fmt("0x%02x", file[base + *o]).c_str() : "error"));
  };
  for (uint32_t bank = 0; bank < 256; ++bank) {
    for (uint32_t off : {0x0000u, 0x7fffu, 0x8000u, 0xffffu, 0xffdcu, 0xffdeu, 0x7fdcu}) probe(bank << 16 | off);
  }
  for (int i = 0; i < 40; ++i) probe(gen::address(c));
  probe(addr_for(c, m, fsize - base - 1));
}

// Sparse files, too large for their size to fit an int.
static void huge(Case& c) {
  std::string path = c.scratch + "/huge.bin";
  Bytes d(0x10000);
  put_checksum(d, 0x7fb0, 0, 5);
  put_checksum(d, 0xffb0, 3, 9);
  write_file(path, Bytes(), d);
  uint64_t size = 0x80000000ull * c.range(1, 6) + 0x1000 * c.range(0, 0x40) + (c.coin(1, 4) ? 0x200 : 0);
  if (truncate(path.c_str(), size)) { c.label("no space"); return; }
  c.note(fmt("sparse file of 0x%llx bytes", (unsigned long long)size));
  c.nontrivial();
  int fd = next_fd();
  auto r = nsasm::LoadRomFile(path);
  c.check(next_fd() == fd, "a file was left open");
  c.check(!r.ok(), "a file of several GiB was loaded");
  c.check(r.error().ToString().find(path + ": ") == 0, "error must name the path: " + r.error().ToString());
  unlink(path.c_str());
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C04";
  cfg.rule = "files of generated size (page-aligned, +512 header, ragged, near 64 KiB and 4 MiB) with valid, half-valid or broken checksum pairs at both header positions; non-trivial: the file loads, or is big enough and page-aligned but must be rejected, or a call the loader made was made to fail";
  cfg.tests = {{"load", load, 0, 50}, {"huge", huge, 0, 1}, {"faults", faults, 0, 8}};
  cfg.quick_cases = 9000;
  cfg.thorough_cases = 200000;
  return pbt::main_(cfg, argc, argv);
}
