// C12: 1-, 2- and 3-byte reads of any input source.
#include "gen_addr.h"
#include "nsasm/memory.h"
#include "ref_map.h"

using pbt::Case;
using pbt::fmt;

// A source whose byte at an address is a hash of it; optionally with a hole.
struct Source : nsasm::InputSource {
  uint64_t key = 0;
  std::set<uint32_t> holes;
  mutable std::vector<std::pair<uint32_t, int>> log;
  uint8_t at(uint32_t a) const { uint64_t h = pbt::mix(key ^ a); return h & 7 ? h >> 8 : (h & 8 ? 0xff : 0); }
  std::string Path() const override { return "src"; }
  nsasm::ErrorOr<std::vector<uint8_t>> Read(nsasm::Address a, int n) const override {
    uint32_t r = uint32_t(a.Bank()) << 16 | a.BankAddress();
    log.push_back({r, n});
    std::vector<uint8_t> v;
    for (int i = 0; i < n; ++i) {
      uint32_t x = ref::Wrap(r, i);
      if (holes.count(x)) return nsasm::Error("hole at %d", (int)x).SetLocation(std::string("src"));
      v.push_back(at(x));
    }
    return v;
  }
};

static void values(Case& c) {
  Source s;
  s.key = c.draw(1 << 20);
  uint32_t a = gen::address(c);
  if (c.coin(1, 3)) s.holes.insert(ref::Wrap(a, c.range(-1, 3)));
  c.note(fmt("value at $%06x key %d%s", a, (int)s.key, s.holes.empty() ? "" : " with a hole"));
  c.nontrivial(s.holes.empty() && (a & 0xffff) >= 0xfffe);
  if (s.holes.empty()) c.nontrivial();
  for (int n = 1; n <= 3; ++n) {
    int want = 0;
    bool ok = true;
    for (int i = n - 1; i >= 0; --i) { want = want * 256 + s.at(ref::Wrap(a, i)); ok = ok && !s.holes.count(ref::Wrap(a, i)); }
    auto v = n == 1 ? s.ReadByte(nsasm::Address(a)) : n == 2 ? s.ReadWord(nsasm::Address(a)) : s.ReadLong(nsasm::Address(a));
    c.evals(1);
    c.check_f(v.ok() == ok, [&] { return fmt("%d-byte value: ok=%d, want %d", n, v.ok(), ok); });
    if (ok) c.check_f(*v == want, [&] { return fmt("%d-byte value at $%06x is 0x%x, want 0x%x", n, a, *v, want); });
    else c.check(v.error().ToString().find("hole at") != std::string::npos, "the source's error was lost: " + v.error().ToString());
  }
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C12";
  cfg.rule = "a hash-filled source, possibly with an unreadable byte nearby, read at edge-biased addresses; non-trivial: a fully readable source";
  cfg.tests = {{"values", values}};
  cfg.quick_cases = 3000000;
  cfg.thorough_cases = 20000000;
  return pbt::main_(cfg, argc, argv);
}
