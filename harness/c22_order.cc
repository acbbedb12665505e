// C22: the result does not depend on the order of the files or of hash tables.
#include "asm_run.h"

using namespace nsasm;
using pbt::Case;
using pbt::fmt;
typedef std::vector<std::pair<std::string, std::string>> Files;

struct Outcome {
  run::Result r;
  std::map<uint32_t, std::string> targets, convs, names;
};

static Outcome go(const Files& f, uint64_t salt, const std::vector<uint32_t>& ask) {
  vshim_hash_salt = salt;
  Outcome o;
  o.r = run::Files(f);
  if (o.r.ok) {
    for (auto& n : o.r.as->JumpTargets()) o.targets[run::Num(n.first)] = n.second.ToString();
    for (auto& n : o.r.as->JumpTargetReturnConventions()) o.convs[run::Num(n.first)] = n.second.ToSuffixString();
    for (uint32_t a : ask) {
      auto n = o.r.as->NameForAddress(run::Addr(a));
      if (n.has_value()) o.names[a] = n->ToString();
    }
  }
  o.r.as.reset();
  vshim_hash_salt = 0;
  return o;
}
static std::string show(const std::map<uint32_t, std::string>& m) {
  std::string s;
  for (auto& e : m) s += fmt(" $%06x=", e.first) + e.second;
  return s;
}
static void compare(Case& c, const Outcome& a, const Outcome& b, bool same_order) {
  const char* how = same_order ? " with another hash order" : " with the files in another order";
  c.check(a.r.ok == b.r.ok, std::string(a.r.ok ? "assembles, but fails" : "fails, but assembles") + how + ": " + a.r.error + b.r.error);
  if (same_order) {
    // A duplicate definition may be reported at whichever name is seen first.
    bool dup = a.r.error.find("Duplicate") != a.r.error.npos;
    c.check(a.r.error == b.r.error || dup, "the error changes" + std::string(how) + ": " + a.r.error + " / " + b.r.error);
  }
  if (!a.r.ok) return;
  if (a.r.bytes != b.r.bytes) c.fail("the output changes" + std::string(how) + ": " + run::FirstDiff(a.r.bytes, b.r.bytes));
  c.check(a.targets == b.targets, "jump targets change" + std::string(how) + ":" + show(a.targets) + " /" + show(b.targets));
  if (same_order) {
    c.check(a.names == b.names, "names of addresses change" + std::string(how) + ":" + show(a.names) + " /" + show(b.names));
    c.check(a.convs == b.convs, "return conventions change" + std::string(how) + ":" + show(a.convs) + " /" + show(b.convs));
  } else {
    std::set<uint32_t> x, y;
    for (auto& e : a.convs) x.insert(e.first);
    for (auto& e : b.convs) y.insert(e.first);
    c.check(x == y, "the set of return conventions changes" + std::string(how));
    x.clear(), y.clear();
    for (auto& e : a.names) x.insert(e.first);
    for (auto& e : b.names) y.insert(e.first);
    c.check(x == y, "which addresses have a name changes" + std::string(how));
  }
}

static void go_all(Case& c, const Files& f, const std::vector<uint32_t>& ask) {
  std::string text;
  for (auto& x : f) text += "--- " + x.first + "\n" + x.second + "\n";
  c.note(text);
  Outcome base = go(f, 0, ask);
  c.label(base.r.ok ? "assembles" : "fails");
  c.nontrivial(f.size() >= 2 && (base.r.ok || !base.r.error.empty()));
  for (int i = 0; i < 2; ++i) compare(c, base, go(f, c.draw(1u << 30) + 1, ask), true);
  Files g = f;
  for (int i = 0; i < 2; ++i) {
    for (size_t k = 1; k < g.size(); ++k) std::swap(g[k], g[c.draw(k + 1)]);
    compare(c, base, go(g, i ? c.draw(1u << 30) : 0, ask), false);
  }
  c.evals(4);
}
static std::vector<uint32_t> addresses(const prog::Program& p) {
  std::vector<uint32_t> v;
  for (auto& m : p.mod)
    for (auto& s : m.st)
      if (!s.labels.empty()) v.push_back((s.name == ".equ" ? s.value : s.addr) & 0xffffff);
  return v;
}
static prog::Program program(Case& c) {
  prog::Options o;
  o.body = 8;
  o.blocks = 3;
  o.modules = 5;
  o.names_heavy = c.coin(2, 3);
  if (c.coin(1, 12)) o.modules = 20, o.many_names = true, o.blocks = 2;
  return prog::Gen(c, o).Make();
}
static void valid(Case& c) {
  prog::Program p = program(c);
  auto f = run::FileList(p, p.order);
  go_all(c, f, addresses(p));
}
// Programs with something wrong in them: still the same verdict.
static void damaged(Case& c) {
  prog::Program p = program(c);
  auto f = run::FileList(p, p.order);
  for (int n = c.range(1, 2); n > 0; --n) {
    std::string& t = f[c.draw(f.size())].second;
    std::vector<std::string> lines;
    std::stringstream ss(t);
    for (std::string l; std::getline(ss, l);) lines.push_back(l);
    if (lines.empty()) continue;
    size_t k = c.draw(lines.size());
    switch (c.draw(5)) {
      case 0: lines.erase(lines.begin() + k); break;
      case 1: { std::string l = c.pick(lines); lines.insert(lines.begin() + k, l); break; }
      case 2: gen::damage(c, &lines[k]); break;
      case 3: {  // a label, possibly of another file, turns up here
        auto& m = c.pick(p.mod);
        std::string l = "lab";
        for (auto& s : m.st) if (!s.labels.empty() && c.coin()) { l = s.labels[0].name; break; }
        lines.insert(lines.begin() + k, l + (c.coin() ? ":" : " .equ 5"));
        break;
      }
      default: {
        auto& m = c.pick(p.mod);
        lines.insert(lines.begin() + k, c.coin() ? ".module " + (m.name.empty() ? "alpha" : m.name) : ".equ " + m.name + "::foo");
      }
    }
    t.clear();
    for (auto& l : lines) t += l + "\n";
  }
  go_all(c, f, addresses(p));
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C22";
  cfg.rule = "programs of one to five files (some of up to twenty), valid or with one or two lines damaged, assembled in permuted file orders and with permuted hash table orders; non-trivial: at least two files";
  cfg.tests = {{"valid", valid}, {"damaged", damaged}};
  cfg.quick_cases = 4000;
  cfg.thorough_cases = 200000;
  return pbt::main_(cfg, argc, argv);
}
