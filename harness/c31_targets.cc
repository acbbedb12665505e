// C31: what an assembly reports about jumps, conventions and names.
#include "asm_run.h"

using namespace nsasm;
using pbt::Case;
using pbt::fmt;
using ref::Mode3;

static bool has_name(const ref::Expr& e) { return e.is_name || (e.l && has_name(*e.l)) || (e.r && has_name(*e.r)); }
static std::string show(const Mode3& f) { return fmt("e=%d m=%d x=%d", f.e, f.m, f.x); }
static int known(BitState s) { return s == B_on ? 1 : s == B_off ? 0 : -1; }
static std::string conv(const ref::Stmt& s) { return s.conv == ref::C_noreturn ? "noreturn" : "yields " + show(s.conv_flags); }
static std::string conv(const ReturnConvention& r) {
  if (r.IsExitCall()) return "noreturn";
  if (!r.YieldFlags()) return "default";
  return "yields " + show({known(r.YieldFlags()->EBit()), known(r.YieldFlags()->MBit()), known(r.YieldFlags()->XBit())});
}

static void whole(Case& c) {
  prog::Options o;
  o.body = 10;
  o.names_heavy = c.coin();
  if (c.coin(1, 20)) {
    if (c.coin()) o.modules = 16, o.many_names = true;
    else o.blocks = 12, o.body = c.range(10, 60);
  }
  prog::Gen g(c, o);
  prog::Program p = g.Make();
  // Send some calls and .remote lines to the same places.
  std::vector<uint32_t> spots;
  for (int i = 0; i < 4; ++i) spots.push_back(c.draw(0x1000000));
  if (!p.used.empty()) for (int i = 0; i < 2; ++i) { auto it = p.used.lower_bound(c.draw(0x1000000)); if (it == p.used.end()) it = p.used.begin(); spots.push_back(*it); }
  for (auto& m : p.mod)
    for (auto& s : m.st) if (!s.directive && s.addressed && c.coin(1, 12)) spots.push_back(prog::Wrap(s.addr, c.range(-1, 3)));
  for (auto& m : p.mod)
    for (auto& s : m.st) {
      bool far = s.name == "jsl" || s.name == "jsr" || s.name == "jmp" || s.name == ".remote";
      if (!far || (s.directive ? false : s.mode != "a" && s.mode != "l") || c.coin(1, 4)) continue;
      uint32_t t = c.pick(spots);
      if (s.mode == "a") s.a = ref::Lit(t & 0xffff, 2);
      else s.a = s.directive && c.coin(1, 4) ? ref::Bin('+', ref::Lit(t, 3), ref::Lit(0, 0)) : ref::Lit(t, 3);
    }
  g.p = p;
  for (auto& m : g.p.mod) g.Text(&m);
  p = g.p;
  c.note(prog::Listing(p));
  auto bytes = g.Bytes();
  auto r = run::Program(p);
  c.check(r.ok, "does not assemble: " + r.error);
  if (r.bytes != bytes) c.fail("wrong output: " + run::FirstDiff(r.bytes, bytes));

  // Expected reports.
  std::map<uint32_t, Mode3> targets;
  std::map<uint32_t, std::set<std::string>> convs;
  auto add = [&](uint32_t a, Mode3 f) {
    if (bytes.count(a)) return;
    auto it = targets.find(a);
    if (it == targets.end()) { targets[a] = f; return; }
    Mode3& q = it->second;
    if (q.e != f.e) q.e = -1;
    if (q.m != f.m) q.m = -1;
    if (q.x != f.x) q.x = -1;
  };
  for (size_t k = 0; k < p.mod.size(); ++k)
    for (auto& s : p.mod[k].st) {
      if (s.name == ".entry" && s.conv != ref::C_default) convs[s.addr].insert(conv(s));
      if (s.name == ".remote") {
        uint32_t a = g.Value(k, s, *s.a).v;
        add(a, s.flags);
        if (s.conv != ref::C_default) convs[a].insert(conv(s));
      }
      if (s.directive || (s.mode != "a" && s.mode != "l") || (s.name != "jsr" && s.name != "jsl" && s.name != "jmp")) continue;
      if (has_name(*s.a)) continue;
      ref::Val v = g.Value(k, s, *s.a);
      add(s.mode == "l" ? v.v & 0xffffff : (s.addr & 0xff0000) | (v.v & 0xffff), {s.before.e, s.before.m, s.before.x});
    }
  auto got = r.as->JumpTargets();
  for (auto& t : got) {
    auto it = targets.find(run::Num(t.first));
    c.check(it != targets.end(), "reports a jump to " + t.first.ToString() + " that is not there");
    Mode3 f{known(t.second.EBit()), known(t.second.MBit()), known(t.second.XBit())};
    c.check(f.e == it->second.e && f.m == it->second.m && f.x == it->second.x, "jump to " + t.first.ToString() + " with " + show(f) + ", want " + show(it->second));
  }
  for (auto& t : targets) c.check(got.count(run::Addr(t.first)) > 0, fmt("does not report the jump to $%06x", t.first));
  auto gc = r.as->JumpTargetReturnConventions();
  for (auto& t : gc) {
    auto it = convs.find(run::Num(t.first));
    c.check(it != convs.end(), "reports a convention for " + t.first.ToString() + " that is not declared");
    c.check(it->second.count(conv(t.second)) > 0, "convention of " + t.first.ToString() + " is " + conv(t.second) + ", want " + *it->second.begin());
  }
  for (auto& t : convs) c.check(gc.count(run::Addr(t.first)) > 0, fmt("does not report the convention of $%06x", t.first));

  // Names: of the first named file (as given) that has one, the alphabetically first.
  std::map<uint32_t, std::string> names;
  for (int k : p.order) {
    if (p.mod[k].name.empty()) continue;
    std::map<uint32_t, std::string> mine;
    for (auto& s : p.mod[k].st)
      for (auto& l : s.labels) {
        if (!s.scopes.empty() && !l.exported) continue;
        int32_t v = s.name == ".equ" ? s.value : s.addr;
        if (v < 0 || v > 0xffffff) continue;
        auto it = mine.find(v);
        if (it == mine.end() || l.name < it->second) mine[v] = l.name;
      }
    for (auto& n : mine) names.emplace(n.first, p.mod[k].name + "::" + n.second);
  }
  auto ask = [&](uint32_t a) {
    auto n = r.as->NameForAddress(run::Addr(a));
    auto it = names.find(a);
    if (it == names.end()) {
      if (n.has_value()) c.fail(fmt("$%06x must not have a name, but is ", a) + n->ToString());
      return;
    }
    if (!n.has_value()) c.fail(fmt("$%06x has no name, want ", a) + it->second);
    c.check(n->ToString() == it->second, fmt("$%06x is called ", a) + n->ToString() + ", want " + it->second);
  };
  for (auto& n : names) ask(n.first), ask(prog::Wrap(n.first, 1));
  for (auto& m : p.mod)
    for (auto& s : m.st) if (s.addressed) ask(s.addr);
  c.nontrivial(targets.size() + convs.size() + names.size() >= 3);
  c.evals(targets.size() + convs.size() + names.size());
  if (targets.empty()) c.label("no jump target");
  for (auto& t : convs) if (t.second.size() > 1) c.label("conflicting conventions");
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C31";
  cfg.rule = "generated programs (some of up to 16 files) whose calls, jumps and .remote lines share a few targets inside and outside the assembled bytes; non-trivial: at least three targets, conventions and named addresses";
  cfg.tests = {{"whole", whole}};
  cfg.quick_cases = 6000;
  cfg.thorough_cases = 300000;
  return pbt::main_(cfg, argc, argv);
}
