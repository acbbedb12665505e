// C05: writing over a ROM and saving it.
#include <signal.h>
#include <sys/resource.h>
#include "gen_addr.h"
#include "nsasm/rom.h"
#include "rom_file.h"

using pbt::Case;
using pbt::fmt;
using namespace romfile;

static const char* kName[] = {"LoROM", "HiROM", "ExHiROM"};
static const nsasm::Mapping kMap[] = {nsasm::kLoRom, nsasm::kHiRom, nsasm::kExHiRom};

static void overwrite(Case& c) {
  bool from_file = c.coin();
  int mi = c.weighted({4, 4, 1});
  ref::Map m = ref::Map(mi);
  uint32_t size = m == ref::ExHiRom ? (from_file || c.coin(1, 8) ? 0x400000 + 0x1000 * c.range(0, 16) : 0x10000) : 0x1000 * c.range(0x10, 0x30);
  uint64_t key = c.draw(1000);
  bool has_smc = c.coin(1, 3);
  Bytes d = image(m, size, key), smc = has_smc ? smc_header(key) : Bytes();
  std::string in = c.scratch + "/in.sfc", out = c.scratch + "/out.sfc";
  c.note(fmt("%s size=0x%x%s%s:", kName[mi], size, has_smc ? " +smc" : "", from_file ? " from file" : ""));
  std::unique_ptr<nsasm::Rom> rom;
  if (from_file) {
    write_file(in, smc, d);
    auto r = nsasm::LoadRomFile(in);
    c.check_f(r.ok(), [&] { return "image does not load: " + r.error().ToString(); });
    rom = std::move(*r);
  } else {
    rom = std::make_unique<nsasm::Rom>(kMap[mi], in, smc, d);
  }
  nsasm::RomOverwriter w(std::move(rom));
  Bytes model = d;
  // Bytes a failed write was asked to change: either value is acceptable.
  std::map<uint32_t, std::set<uint8_t>> loose;
  bool wrote = false;
  for (auto more = c.many(8, 30); more.more();) {
    uint32_t a;
    if (c.coin(3, 4)) {
      uint32_t limit = m == ref::LoRom ? 0x400000 : m == ref::HiRom ? 0x400000 : 0x7e0000;
      uint32_t t = c.coin(1, 3) ? (uint32_t)(size + c.range(0, 8) - 6) : (uint32_t)c.draw(size);
      a = addr_for(c, m, std::min(t, limit - 1));
      if (c.coin(1, 5)) a |= 0xfff8;
    } else {
      a = gen::address(c);
    }
    int n = c.weighted({6, 2, 1}) == 0 ? c.range(0, 6) : c.coin(1, 10) ? c.range(0x7ff0, 0x8010) : c.range(0, 64);
    uint8_t fill = c.range(0, 255);
    Bytes bytes(n);
    for (int i = 0; i < n; ++i) bytes[i] = fill + i * 37;
    c.note(fmt(" $%06x+%d", a, n));
    bool ok = true;
    std::vector<std::optional<uint64_t>> offs(n);
    for (int i = 0; i < n; ++i) {
      offs[i] = ref::RomOffset(ref::Wrap(a, i), m);
      if (!offs[i] || *offs[i] >= size) { ok = false; offs[i].reset(); }
    }
    auto r = w.Write(nsasm::Address(a), bytes);
    c.evals(1);
    c.check_f(r.ok() == ok, [&] { return fmt("write of %d bytes at $%06x: %s, want %s", n, a, r.ok() ? "ok" : r.error().ToString().c_str(), ok ? "ok" : "an error"); });
    for (int i = 0; i < n; ++i) {
      if (!offs[i]) continue;
      uint32_t o = *offs[i];
      if (ok) { model[o] = bytes[i]; loose.erase(o); wrote = true; }
      else { loose[o].insert(model[o]); loose[o].insert(bytes[i]); }
    }
    c.label(ok ? "write ok" : "write refused");
    if ((a & 0xffff) + n > 0x10000 && ok) c.label("wrapping write");
  }
  if (c.coin(1, 6)) {
    std::string bad = c.scratch + (c.coin() ? "/absent/dir/out.sfc" : "");
    int fd = next_fd();
    auto r = w.CreateFile(bad);
    c.check(next_fd() == fd, "a file was left open");
    c.check(!r.ok(), "saving into a missing directory must fail");
    c.check_f(r.error().ToString().find(bad + ": ") == 0, [&] { return "the error does not name the path: " + r.error().ToString(); });
  }
  if (c.coin(1, 6)) {
    // a disk that fills up after some bytes
    uint64_t total = smc.size() + size, limit = c.weighted({2, 1, 1}) == 0 ? c.draw(total) : c.coin() ? total - c.draw(3) : c.draw(0x201);
    std::string full = c.scratch + "/full.sfc";
    struct rlimit old, now;
    getrlimit(RLIMIT_FSIZE, &old);
    now = old;
    now.rlim_cur = limit;
    int fd = next_fd();
    signal(SIGXFSZ, SIG_IGN);
    setrlimit(RLIMIT_FSIZE, &now);
    auto r = w.CreateFile(full);
    setrlimit(RLIMIT_FSIZE, &old);
    c.check(next_fd() == fd, "a file was left open");
    c.label(r.ok() ? "disk not full" : "disk full");
    c.check_f(r.ok() == (limit >= total), [&] { return fmt("saving 0x%llx bytes where 0x%llx fit: ", (unsigned long long)total, (unsigned long long)limit) + (r.ok() ? "ok" : r.error().ToString()); });
    if (!r.ok()) c.check_f(r.error().ToString().find(full + ": ") == 0, [&] { return "the error does not name the path: " + r.error().ToString(); });
    unlink(full.c_str());
  }
  bool over_self = from_file && c.coin(1, 4);
  const std::string& target = over_self ? in : out;
  if (!over_self && c.coin(1, 4)) write_file(out, Bytes(), Bytes(size + 0x5000, 0xcc));  // stale longer file
  for (int round = 0; round < 2; ++round) {
    int fd = next_fd();
    auto r = w.CreateFile(target);
    c.check(next_fd() == fd, "a file was left open");
    c.check_f(r.ok(), [&] { return "saving failed: " + r.error().ToString(); });
    Bytes got;
    c.check(read_file(target, &got), "no output file");
    c.check_f(got.size() == smc.size() + size, [&] { return fmt("output has 0x%zx bytes, want 0x%zx", got.size(), smc.size() + size); });
    for (size_t i = 0; i < smc.size(); ++i)
      if (got[i] != smc[i]) c.fail(fmt("copier header byte 0x%zx changed", i));
    for (uint32_t o = 0; o < size; ++o) {
      uint8_t v = got[smc.size() + o];
      if (v == model[o]) continue;
      auto it = loose.find(o);
      if (it != loose.end() && it->second.count(v)) continue;
      c.fail(fmt("ROM offset 0x%x is 0x%02x, want 0x%02x", o, v, model[o]));
    }
  }
  if (from_file && !over_self) {
    Bytes orig, want = smc;
    want.insert(want.end(), d.begin(), d.end());
    c.check(read_file(in, &orig) && orig == want, "the input ROM file was modified");
  }
  c.nontrivial(wrote);
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C05";
  cfg.rule = "a ROM (constructed or loaded, all mappings, with/without copier header) and a history of writes near bank ends, the image end and unmapped areas, then one or two saves; non-trivial: at least one successful write";
  cfg.tests = {{"overwrite", overwrite}};
  cfg.quick_cases = 4500;
  cfg.thorough_cases = 150000;
  return pbt::main_(cfg, argc, argv);
}
