// C21: assembling a program writes exactly the bytes it says.
#include "asm_run.h"

using namespace nsasm;
using pbt::Case;
using pbt::fmt;

static void whole(Case& c, prog::Options o) {
  prog::Gen g(c, o);
  prog::Program p = g.Make();
  c.note(prog::Listing(p));
  auto want = g.Bytes();
  c.nontrivial(want.size() >= 8);
  c.label(fmt("%d files", (int)p.mod.size()));
  c.label(want.size() < 8 ? "<8 bytes" : want.size() < 64 ? "8-63 bytes" : "64 bytes or more");
  auto r = run::Program(p);
  c.check(r.ok, "does not assemble: " + r.error);
  c.check(!r.twice, "a byte was written twice");
  if (r.bytes != want) c.fail("wrong output: " + run::FirstDiff(r.bytes, want));
  for (int i = 0; i < 40; ++i) {
    uint32_t a = c.draw(0x1000000);
    if (!want.empty() && i % 4) {
      auto it = want.lower_bound(a);
      if (it == want.end()) it = want.begin();
      a = prog::Wrap(it->first, c.range(-1, 1));
    }
    c.check(r.as->Contains(run::Addr(a)) == (want.count(a) > 0), fmt("Contains($%06x)", a));
  }
  c.evals(want.size());
}
static void mixed(Case& c) { whole(c, {}); }
static void small(Case& c) { prog::Options o; o.modules = 1; o.blocks = 1; o.body = 6; whole(c, o); }
static void names(Case& c) { prog::Options o; o.names_heavy = true; whole(c, o); }
static void large(Case& c) {
  prog::Options o;
  if (c.coin()) o.modules = 16, o.many_names = true, o.blocks = 3;
  else o.modules = 2, o.blocks = c.range(2, 10), o.body = c.range(30, 120);
  o.names_heavy = c.coin();
  whole(c, o);
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C21";
  cfg.rule = "programs of one to three files, valid by construction, with nested scopes, modules, branches, calls, status flag changes and data; non-trivial: at least eight bytes of output";
  cfg.tests = {{"mixed", mixed}, {"small", small}, {"names", names}, {"large", large}};
  cfg.quick_cases = 8000;
  cfg.thorough_cases = 400000;
  return pbt::main_(cfg, argc, argv);
}
