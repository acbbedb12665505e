// C24: no byte is ever assembled twice.
#include "asm_run.h"

using namespace nsasm;
using pbt::Case;
using pbt::fmt;

static void judge(Case& c, const std::vector<std::pair<std::string, std::string>>& files, bool overlap, const std::set<uint32_t>& used, int blocks) {
  std::string all;
  for (auto& f : files) all += "--- " + f.first + "\n" + f.second + "\n";
  c.note(all);
  c.nontrivial(blocks >= 2);
  c.label(overlap ? "overlap" : "no overlap");
  auto r = run::Files(files);
  c.check(r.ok || overlap, "does not assemble, though nothing overlaps: " + r.error);
  c.check(!r.ok || !overlap, "assembles, though a byte is assembled twice");
  if (!r.ok) return;
  c.check(!r.twice, "a byte was written twice");
  for (uint32_t a : used)
    for (int d = -1; d <= 1; ++d) {
      uint32_t b = prog::Wrap(a, d);
      c.check(r.as->Contains(run::Addr(b)) == (used.count(b) > 0), fmt("Contains($%06x)", b));
    }
}
// Real programs whose blocks lie next to each other.
static void programs(Case& c) {
  prog::Options o;
  o.near = true;
  o.body = 4;
  prog::Gen g(c, o);
  prog::Program p = g.Make();
  judge(c, run::FileList(p, p.order), p.overlap, p.used, g.spans.size());
}
// Many small pieces of data in a small area.
static void Pieces(Case& c, int n, int area, int count) {
  int rare = std::max(30, 3 * n * count);
  uint32_t base = prog::Wrap(c.draw(0x1000000), 0);
  if (c.coin()) base = (base & 0xff0000) | (0x10000 - c.range(0, area)) % 0x10000;
  std::vector<std::pair<std::string, std::string>> files;
  std::set<uint32_t> used;
  bool overlap = false;
  int blocks = 0;
  for (int k = 0; k < n; ++k) {
    std::string t;
    if (c.coin()) t = fmt(".module m%d\n", k);
    for (auto m = c.many(count, 4 * count); m.more();) {
      int len = c.weighted({0, 4, 3, 3, 2, 1, 1});
      if (c.coin(1, 10)) len = c.range(0, area);
      uint32_t at = prog::Wrap(base, c.draw(area));
      bool free = false;  // most pieces go where there is room
      for (int tries = 0; tries < (c.coin(rare - 1, rare) ? 30 : 1) && !free; ++tries) {
        if (tries) at = prog::Wrap(base, c.draw(area)), len = c.range(1, len ? len : 1);
        free = true;
        for (int i = 0; i < len && free; ++i) free = !used.count(prog::Wrap(at, i));
      }
      if (!free && c.coin(2, 3)) continue;
      ++blocks;
      t += fmt(".org $%06x\n", at);
      if (c.coin(1, 4)) t += "  .mode unk\n";
      int left = len;
      while (left > 0) {
        int w = c.range(1, std::min(3, left)), items = c.range(1, left / w);
        if (items > 40) items = 40;
        t += w == 1 ? ".db " : w == 2 ? ".dw " : ".dl ";
        for (int i = 0; i < items; ++i) t += i ? ",1" : "1";
        t += "\n";
        left -= w * items;
      }
      for (int i = 0; i < len; ++i) overlap |= !used.insert(prog::Wrap(at, i)).second;
    }
    files.push_back({fmt("f%d.asm", k), t});
  }
  judge(c, files, overlap, used, blocks);
}
static void pieces(Case& c) {
  int n = c.range(1, 4);
  Pieces(c, n, c.range(8, 600), 5);
}
static void many(Case& c) {
  int n = c.range(1, 12);
  Pieces(c, n, c.range(200, 6000), c.range(5, 80));
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C24";
  cfg.rule = "programs whose blocks touch or overlap, within and across files and around bank ends, in up to a dozen files and hundreds of pieces; non-trivial: at least two blocks";
  cfg.tests = {{"programs", programs}, {"pieces", pieces, 0, 3}, {"many", many, 0, 1}};
  cfg.quick_cases = 12000;
  cfg.thorough_cases = 500000;
  return pbt::main_(cfg, argc, argv);
}
