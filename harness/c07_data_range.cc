// C07: DataRange against a list of raw claims.
#include "gen_addr.h"
#include "nsasm/ranges.h"

using nsasm::Address;
using nsasm::Chunk;
using pbt::Case;
using pbt::fmt;

using Ival = std::pair<uint32_t, uint32_t>;
static uint32_t raw(Address a) { return uint32_t(a.Bank()) << 16 | a.BankAddress(); }

// Canonical form: sorted, disjoint, non-touching.
static std::vector<Ival> canon(std::vector<Ival> v) {
  std::sort(v.begin(), v.end());
  std::vector<Ival> r;
  for (auto& i : v) {
    if (!r.empty() && i.first <= r.back().second) r.back().second = std::max(r.back().second, i.second);
    else r.push_back(i);
  }
  return r;
}

static bool overlaps(const std::vector<Ival>& v, Ival x) {
  for (auto& i : v)
    if (x.first < i.second && i.first < x.second) return true;
  return false;
}

static void compare(Case& c, const nsasm::DataRange& r, const std::vector<Ival>& claims) {
  std::vector<Ival> want = canon(claims), got;
  for (const Chunk& k : r.Chunks()) got.push_back({raw(k.first), raw(k.second)});
  c.check_f(got == want, [&] {
    std::string s = "chunks are";
    for (auto& i : got) s += fmt(" [%06x,%06x)", i.first, i.second);
    s += ", want";
    for (auto& i : want) s += fmt(" [%06x,%06x)", i.first, i.second);
    return s;
  });
  for (auto& i : want)
    for (int64_t d = -2; d <= 2; ++d)
      for (uint32_t e : {i.first, i.second}) {
        int64_t p = int64_t(e) + d;
        if (p < 0 || p > 0xffffff) continue;
        bool in = overlaps(want, {p, p + 1});
        c.evals(1);
        if (r.Contains(Address(p)) != in) c.fail(fmt("Contains($%06x) is %d", (uint32_t)p, !in));
      }
}

static void claims(Case& c) {
  // Addresses cluster around a few bases so that claims touch and overlap.
  uint32_t bases[3];
  for (auto& b : bases) {
    switch (c.weighted({3, 2, 1})) {
      case 0: b = (uint32_t)c.range(0, 255) << 16 | 0xffe0; break;  // straddles a bank end
      case 1: b = gen::address(c); break;
      default: b = c.coin() ? 0xffffd0 : 0; break;
    }
  }
  nsasm::DataRange r;
  std::vector<Ival> model;
  bool merged = false, refused = false;
  for (auto more = c.many(12, 60); more.more();) {
    uint32_t base = bases[c.weighted({4, 2, 1})];
    uint32_t a = (base + (uint32_t)c.range(0, 64)) & 0xffffff;
    bool as_chunk = c.coin(1, 3);
    std::vector<Ival> pieces;
    bool got;
    if (as_chunk) {
      uint32_t len = c.coin(9, 10) ? c.range(1, 24) : c.range(1, 0x28000);
      uint32_t e = std::min<uint32_t>(a + len, 0x1000000);
      c.note(fmt(" chunk[%06x,%06x)", a, e));
      pieces = {{a, e}};
      got = r.ClaimBytes(Chunk(Address(a), Address(e)));
    } else {
      int len = c.coin(9, 10) ? c.range(0, 24) : c.coin(1, 4) ? c.range(-3, 0) : c.coin() ? 0x10000 - c.range(0, 2) : c.range(1, 0x10000);
      c.note(fmt(" $%06x+%d", a, len));
      // Byte by byte: the claim stays inside the bank.
      uint32_t left = 0x10000 - (a & 0xffff);
      if (len > 0) {
        pieces.push_back({a, a + std::min<uint32_t>(len, left)});
        if ((uint32_t)len > left) pieces.push_back({a & 0xff0000, (a & 0xff0000) + (len - left)});
      }
      got = r.ClaimBytes(Address(a), len);
      if (pieces.size() > 1) c.label("bank-wrapping claim");
    }
    bool want = true;
    for (auto& p : pieces) want = want && !overlaps(model, p);
    size_t before = canon(model).size();
    model.insert(model.end(), pieces.begin(), pieces.end());
    merged = merged || canon(model).size() <= before;
    refused = refused || !want;
    c.check_f(got == want, [&] { return fmt("claim returned %d, want %d", got, want); });
    compare(c, r, model);
  }
  if (refused) c.label("has conflicting claim");
  if (merged) c.label("has merge");
  c.nontrivial(merged && model.size() >= 3);
}

// Hundreds of small claims, kept byte by byte in the model.
static void many(Case& c) {
  uint32_t base = c.coin() ? (uint32_t)c.range(0, 255) << 16 | 0xf800 : (uint32_t)c.draw(0x1000000);
  uint32_t area = c.range(64, 4096);
  nsasm::DataRange r;
  std::set<uint32_t> used;
  int n = c.range(50, 500), longest = c.pick({1, 2, 3, 8}), refused = 0, swept = 0;
  bool sweeps = c.coin();  // now and then a claim that covers many earlier ones
  bool sparse = c.coin();   // every claim is for a place of its own
  uint32_t mul = 2 * c.draw(2000) + 1, add = c.draw(4096), order = c.draw(3);
  for (int i = 0; i < n; ++i) {
    uint32_t k = order == 0 ? i : order == 1 ? n - 1 - i : (mul * i + add) % 512;
    uint32_t at = sparse ? k * (longest + c.coin()) : c.draw(area);
    int len = c.range(1, longest);
    if (sweeps && c.coin(1, 80)) at = c.draw(area), len = c.range(1, c.coin() ? 300 : 2 * area), ++swept;
    uint32_t a = (base & 0xff0000) | ((base + at) & 0xffff);
    std::vector<uint32_t> bytes;
    bool want = true;
    for (int j = 0; j < len; ++j) {
      bytes.push_back((a & 0xff0000) | ((a + j) & 0xffff));
      want = want && !used.count(bytes.back());
    }
    bool chunk = (a & 0xffff) + len <= 0xffff && c.coin(1, 4);
    // (what a refused claim leaves behind is the union, see above)
    bool got = chunk ? r.ClaimBytes(Chunk(Address(a), Address(a + len))) : r.ClaimBytes(Address(a), len);
    c.check_f(got == want, [&] { return fmt("claim %d of $%06x+%d returned %d, want %d", i, a, len, got, want); });
    refused += !want;
    used.insert(bytes.begin(), bytes.end());
  }
  std::vector<Ival> all;
  for (uint32_t b : used) all.push_back({b, b + 1});
  c.note(fmt("%d claims of up to %d bytes from $%06x, %d refused, %zu chunks", n, longest, base, refused, canon(all).size()));
  if (swept) c.label("many: with claims over many others");
  c.label(canon(all).size() < 50 ? "many: under 50 chunks" : "many: 50 and more chunks");
  c.nontrivial(canon(all).size() >= 20);
  compare(c, r, all);
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C07";
  cfg.rule = "histories of byte-run and chunk claims clustered around bank edges and the ends of memory; the chunk list and membership around every edge are compared after every claim; also up to 500 small claims in one area, now and then one over many of them, compared at the end; non-trivial: three or more claims of which one merges with earlier ones";
  cfg.tests = {{"claims", claims, 0, 40}, {"many", many, 0, 1}};
  cfg.quick_cases = 120000;
  cfg.thorough_cases = 1500000;
  return pbt::main_(cfg, argc, argv);
}
