// C08: RangeMap against a list of accepted insertions.
#include "gen_addr.h"
#include "nsasm/ranges.h"

using nsasm::Address;
using pbt::Case;
using pbt::fmt;

static void inserts(Case& c) {
  uint32_t bases[2];
  for (auto& b : bases) b = c.coin() ? (uint32_t)c.range(0, 255) << 16 | 0xffd0 : gen::address(c);
  nsasm::RangeMap<std::string> map;
  std::map<uint32_t, std::string> model;
  int accepted = 0, refused = 0, serial = 0;
  std::set<uint32_t> probes;
  for (auto more = c.many(8, 30); more.more();) {
    nsasm::DataRange r;
    std::set<uint32_t> bytes;
    bool over = false;
    int parts = c.weighted({1, 5, 3, 2});
    c.note(" {");
    for (int p = 0; p < parts; ++p) {
      uint32_t a = (bases[c.coin(1, 3)] + (uint32_t)c.range(0, 90)) & 0xffffff;
      int len = c.range(1, 12);
      if (len >= 11) len = c.range(1, 80);
      c.note(fmt("$%06x+%d ", a, len));
      r.ClaimBytes(Address(a), len);
      for (int i = 0; i < len; ++i) {
        uint32_t x = (a & 0xff0000) | ((a + i) & 0xffff);
        bytes.insert(x);
        over = over || model.count(x);
        probes.insert(x);
      }
      for (int d : {-1, 0, len - 1, len}) probes.insert((a & 0xff0000) | ((a + d) & 0xffff));
    }
    c.note("}");
    std::string value = fmt("v%d", serial++ % 4 == 3 ? 0 : serial);
    bool got = map.Insert(r, value);
    c.check_f(got == !over, [&] { return fmt("insert returned %d, want %d", got, !over); });
    if (!over) { for (uint32_t x : bytes) model[x] = value; accepted += parts > 0; }
    else ++refused;
    for (uint32_t x : probes) {
      c.evals(1);
      auto v = map.Lookup(Address(x));
      auto it = model.find(x);
      if (v.has_value() != (it != model.end()) || (v && *v != it->second))
        c.fail(fmt("Lookup($%06x) is %s, want %s", x, v ? v->c_str() : "nothing", it == model.end() ? "nothing" : it->second.c_str()));
      if (map.Contains(Address(x)) != (it != model.end())) c.fail(fmt("Contains($%06x) is wrong", x));
    }
  }
  if (refused) c.label("has refused insert");
  c.nontrivial(accepted >= 2 && refused >= 1);
}

// Hundreds of insertions.
static void many(Case& c) {
  uint32_t base = c.coin() ? (uint32_t)c.range(0, 255) << 16 | 0xf800 : (uint32_t)c.draw(0x1000000);
  uint32_t area = c.range(200, 8000);
  nsasm::RangeMap<std::string> map;
  std::map<uint32_t, std::string> model;
  int n = c.range(30, 400), accepted = 0;
  for (int i = 0; i < n; ++i) {
    nsasm::DataRange r;
    std::set<uint32_t> bytes;
    bool over = false;
    int parts = c.weighted({0, 6, 2, 1, 1});
    if (c.coin(1, 60)) parts = c.range(5, 80);
    for (int p = parts; p > 0; --p) {
      uint32_t a = (base & 0xff0000) | ((base + c.draw(area)) & 0xffff);
      int len = c.range(1, 6);
      if (c.coin(1, 60)) len = c.range(7, 400);
      r.ClaimBytes(Address(a), len);
      for (int j = 0; j < len; ++j) {
        uint32_t x = (a & 0xff0000) | ((a + j) & 0xffff);
        bytes.insert(x);
        over = over || model.count(x);
      }
    }
    std::string value = fmt("v%d", c.coin(1, 3) ? 0 : i);
    bool got = map.Insert(r, value);
    c.check_f(got == !over, [&] { return fmt("insert %d returned %d, want %d", i, got, !over); });
    if (!over) { ++accepted; for (uint32_t x : bytes) model[x] = value; }
  }
  c.note(fmt("%d insertions of %d accepted, from $%06x", accepted, n, base));
  for (uint32_t k = 0; k < area + 8; ++k) {
    uint32_t x = (base & 0xff0000) | ((base + k) & 0xffff);
    auto v = map.Lookup(Address(x));
    auto it = model.find(x);
    if (v.has_value() != (it != model.end()) || (v && *v != it->second))
      c.fail(fmt("Lookup($%06x) is %s, want %s", x, v ? v->c_str() : "nothing", it == model.end() ? "nothing" : it->second.c_str()));
    if (map.Contains(Address(x)) != (it != model.end())) c.fail(fmt("Contains($%06x) is wrong", x));
  }
  c.evals(area);
  c.nontrivial(accepted >= 20);
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C08";
  cfg.rule = "histories of insertions of 0-3-part ranges clustered around two bases; every byte ever mentioned and its neighbours is looked up after every step; also up to 400 insertions into one area, looked up at the end; non-trivial: at least two accepted and one refused insertion";
  cfg.tests = {{"inserts", inserts, 0, 40}, {"many", many, 0, 1}};
  cfg.quick_cases = 80000;
  cfg.thorough_cases = 1000000;
  return pbt::main_(cfg, argc, argv);
}
