// C23: a name means the innermost definition in scope, or assembly fails.
#include "asm_run.h"

using namespace nsasm;
using pbt::Case;
using pbt::fmt;

// A small program of data statements: what matters is only which definition
// each name refers to.
struct Ref { bool qualified = false; std::string ns, name; int add = 0; };
struct Item {
  enum Kind { kData, kEqu, kOpen, kClose } kind;
  std::vector<std::pair<std::string, bool>> labels;  // name, exported
  Ref ref;
  bool has_ref = true;
  int lit = 0;
  std::vector<int> scopes;
  uint32_t addr = 0;
};
struct Mod { std::string ns; std::vector<Item> items; };
struct Prog {
  std::vector<Mod> mods;
  std::string why;  // reason it must fail, if it must

  typedef std::pair<int, std::string> Key;  // scope, name
  std::vector<std::map<Key, int>> table;

  bool Define() {
    table.assign(mods.size(), {});
    std::map<std::pair<std::string, std::string>, int> global;
    bool ok = true;
    for (size_t k = 0; k < mods.size(); ++k)
      for (size_t i = 0; i < mods[k].items.size(); ++i) {
        Item& it = mods[k].items[i];
        for (auto& l : it.labels) {
          int scope = it.scopes.empty() || l.second ? -1 : it.scopes.back();
          if (!table[k].emplace(Key(scope, l.first), i).second) ok = false, why = "defined twice: " + l.first;
          if (scope == -1 && !global.emplace(std::make_pair(mods[k].ns, l.first), 1).second) ok = false, why = "defined twice: " + mods[k].ns + "::" + l.first;
        }
      }
    return ok;
  }
  Item* Global(const std::string& ns, const std::string& n, int* mod) {
    for (size_t k = 0; k < mods.size(); ++k)
      if (mods[k].ns == ns) {
        auto it = table[k].find(Key(-1, n));
        if (it != table[k].end()) { *mod = k; return &mods[k].items[it->second]; }
      }
    return nullptr;
  }
  Item* Find(int mod, const Item& from, const Ref& r, int* found) {
    if (r.qualified) return Global(r.ns, r.name, found);
    *found = mod;
    for (auto s = from.scopes.rbegin(); s != from.scopes.rend(); ++s) {
      auto it = table[mod].find(Key(*s, r.name));
      if (it != table[mod].end()) return &mods[mod].items[it->second];
    }
    auto it = table[mod].find(Key(-1, r.name));
    if (it != table[mod].end()) return &mods[mod].items[it->second];
    return Global("", r.name, found);
  }
  // Which files need which others to be settled first, because of .equ.
  bool Order() {
    size_t n = mods.size();
    std::vector<std::set<int>> need(n);
    for (size_t k = 0; k < n; ++k)
      for (auto& it : mods[k].items) {
        if (it.kind != Item::kEqu || !it.has_ref) continue;
        int f = -1;
        Item* t = Find(k, it, it.ref, &f);
        if (!t) { why = ".equ of an undefined name"; return false; }
        if (f != (int)k) need[k].insert(f);
      }
    std::vector<bool> done(n);
    for (size_t left = n; left > 0;) {
      bool more = false;
      for (size_t k = 0; k < n; ++k) {
        if (done[k]) continue;
        bool ready = true;
        for (int d : need[k]) ready = ready && done[d];
        if (ready) done[k] = more = true, --left;
      }
      if (!more) { why = "files depend on each other"; return false; }
    }
    return true;
  }
  bool Eval(int k, Item* it, bool in_equ, int64_t* v) {
    *v = it->lit;
    if (!it->has_ref) return true;
    int f = -1;
    Item* t = Find(k, *it, it->ref, &f);
    if (!t) { why = "undefined: " + it->ref.name; return false; }
    if (t->kind != Item::kEqu) *v = t->addr;
    else {
      // the values of a file's .equ lines are settled from the top down
      if (in_equ && f == k && t >= it) { why = ".equ uses a later one"; return false; }
      if (!Eval(f, t, true, v)) return false;
    }
    *v += it->ref.add;
    return true;
  }
};

// How large the programs are.
struct Size { int mods = 4, names = 12, depth = 4, items = 8; };
static Size size_;
static std::string some_name(Case& c, int names) {
  int i = c.draw(names);
  return i < 12 ? fmt("%c1", 'a' + i) : fmt("n%d", i);
}
static std::string some_name(Case& c) { return some_name(c, size_.names); }
static std::string space(int i) { return !i ? "" : i < 4 ? fmt("%c", 'p' + i - 1) : fmt("sp%d", i); }
static std::string some_space(Case& c) { return space(c.draw(size_.mods)); }

static Prog gen_prog(Case& c, int names) {
  Prog p;
  int n = c.range(size_.mods > 4 ? 3 : 1, size_.mods);
  uint32_t at = 0x008000;
  for (int k = 0; k < n; ++k) {
    Mod m;
    m.ns = c.coin(4, 5) ? space(k) : some_space(c);
    std::vector<int> scopes;
    auto add = [&](Item it) {
      it.scopes = scopes;
      it.addr = at;
      if (it.kind == Item::kData) at += 3;
      m.items.push_back(it);
    };
    auto label = [&](Item* it) {
      while (c.coin(2, 5)) it->labels.push_back({some_name(c, names), c.coin(1, 6)});
    };
    for (auto more = c.many(size_.items, std::max(30, 2 * size_.items)); more.more();) {
      Item it;
      it.kind = (Item::Kind)c.weighted({8, 3, 2, 2});
      if (it.kind == Item::kClose && scopes.empty()) it.kind = Item::kOpen;
      if (it.kind == Item::kOpen && (int)scopes.size() >= size_.depth) it.kind = Item::kClose;
      label(&it);
      if (it.kind == Item::kData || it.kind == Item::kEqu) {
        it.lit = c.draw(256);
        it.has_ref = c.coin(3, 4);
        it.ref.name = some_name(c, names);
        it.ref.qualified = c.coin(1, 2);
        if (it.ref.qualified) it.ref.ns = c.coin(1, 3) ? m.ns : space(c.draw(n));
        it.ref.add = c.coin() ? 0 : c.draw(100);
      }
      add(it);
      if (it.kind == Item::kOpen) scopes.push_back(m.items.size() - 1);
      if (it.kind == Item::kClose) scopes.pop_back();
    }
    while (!scopes.empty()) { Item it; it.kind = Item::kClose; add(it); scopes.pop_back(); }
    p.mods.push_back(m);
  }
  return p;
}
// Make most programs valid: drop clashing labels and point references at something.
static void repair(Case& c, Prog* p, bool ordered = true) {
  std::set<std::pair<std::string, std::string>> global;
  for (auto& m : p->mods) {
    std::set<Prog::Key> seen;
    for (auto& it : m.items) {
      std::vector<std::pair<std::string, bool>> keep;
      for (auto& l : it.labels) {
        int scope = it.scopes.empty() || l.second ? -1 : it.scopes.back();
        if (!seen.insert({scope, l.first}).second) continue;
        if (scope == -1 && !global.insert({m.ns, l.first}).second) continue;
        keep.push_back(l);
      }
      it.labels = keep;
    }
  }
  p->Define();
  for (size_t k = 0; k < p->mods.size(); ++k)
    for (auto& it : p->mods[k].items) {
      if (!it.has_ref) continue;
      bool ok = false;
      for (int t = 0; t < 12 && !ok; ++t) {
        int f = -1;
        Item* d = p->Find(k, it, it.ref, &f);
        ok = d && (!ordered || it.kind != Item::kEqu || f < (int)k || (f == (int)k && (d->kind != Item::kEqu || d < &it)));
        if (!ok) {
          it.ref.name = some_name(c);
          if (it.ref.qualified) it.ref.ns = some_space(c);
        }
      }
      if (!ok) it.has_ref = false;
    }
}

static std::string text(Case& c, const Mod& m, bool trailing_module) {
  std::string s;
  uint32_t first = 0;
  for (auto& it : m.items) { first = it.addr; break; }
  std::string dir = m.ns.empty() ? "" : ".module " + m.ns + "\n";
  if (!trailing_module) s += dir;
  s += fmt(".org $%06x\n", first);
  for (auto& it : m.items) {
    for (auto& l : it.labels) s += (l.second ? "export " : "") + l.first + (c.coin(1, 8) ? ":\n" : ": ");
    switch (it.kind) {
      case Item::kOpen: s += c.coin() ? "{" : ".begin"; break;
      case Item::kClose: s += c.coin() ? "}" : ".end"; break;
      default: {
        s += it.kind == Item::kData ? ".dl " : ".equ ";
        std::string r = (it.ref.qualified ? it.ref.ns + "::" : "") + it.ref.name;
        if (!it.has_ref) s += fmt("%d", it.lit);
        else if (it.ref.add) s += c.coin() ? r + fmt("+%d", it.ref.add) : fmt("%d+", it.ref.add) + r;
        else s += r;
      }
    }
    s += "\n";
  }
  if (trailing_module) s += dir;
  return s;
}

static void go(Case& c, Prog p) {
  std::vector<std::pair<std::string, std::string>> files;
  for (size_t k = 0; k < p.mods.size(); ++k) files.insert(files.begin() + c.draw(k + 1), {fmt("f%d.asm", (int)k), text(c, p.mods[k], c.coin(1, 6))});
  std::string all;
  for (auto& f : files) all += "--- " + f.first + "\n" + f.second;
  c.note(all);
  int refs = 0;
  std::map<uint32_t, uint8_t> want;
  bool ok = p.Define() && p.Order();
  if (ok)
    for (size_t k = 0; k < p.mods.size(); ++k)
      for (auto& it : p.mods[k].items) {
        if (it.kind != Item::kData && it.kind != Item::kEqu) continue;
        int64_t v;
        if (ok && !p.Eval(k, &it, it.kind == Item::kEqu, &v)) ok = false;
        if (!ok) break;
        refs += it.has_ref;
        if (it.kind == Item::kData)
          for (int i = 0; i < 3; ++i) want[it.addr + i] = v >> (8 * i);
      }
  c.note(ok ? "must assemble" : "must fail: " + p.why);
  c.nontrivial(!ok || refs >= 2);
  c.label(ok ? "must assemble" : "must fail: " + p.why.substr(0, p.why.find(':')));
  auto r = run::Files(files);
  c.check(r.ok == ok, r.ok ? "assembles, but must fail: " + p.why : "does not assemble: " + r.error);
  if (!ok) return;
  if (r.bytes != want) c.fail("a name has the wrong value: " + run::FirstDiff(r.bytes, want));
  c.evals(refs);
}
static void valid(Case& c) {
  size_ = {};
  Prog p = gen_prog(c, c.range(3, 12));
  repair(c, &p);
  go(c, p);
}
// One definition or reference of a valid program changed.
static void perturbed(Case& c) {
  size_ = {};
  Prog p = gen_prog(c, c.range(3, 12));
  repair(c, &p);
  for (int t = 0; t < 20; ++t) {
    Mod& m = p.mods[c.draw(p.mods.size())];
    if (m.items.empty()) continue;
    Item& it = m.items[c.draw(m.items.size())];
    bool refs = it.kind == Item::kData || it.kind == Item::kEqu;
    switch (c.draw(4)) {
      case 0: if (it.labels.empty()) continue; it.labels.erase(it.labels.begin() + c.draw(it.labels.size())); break;
      case 1: it.labels.push_back({some_name(c), c.coin(1, 3)}); break;
      case 2: if (!refs) continue; it.has_ref = true; it.ref.name = some_name(c); it.ref.qualified = c.coin(); it.ref.ns = some_space(c); break;
      default: m.ns = some_space(c);
    }
    break;
  }
  go(c, p);
}
// Everything is defined once, but .equ lines may need each other.
static void unordered(Case& c) {
  size_ = {};
  Prog p = gen_prog(c, c.range(6, 12));
  repair(c, &p, false);
  go(c, p);
}
static void wild(Case& c) { size_ = {}; go(c, gen_prog(c, c.range(3, 12))); }
// Many files, names and scopes.
static void large(Case& c) {
  size_ = {c.range(5, 24), c.range(20, 80), c.coin() ? 4 : c.range(5, 20), c.coin() ? 10 : c.range(20, 60)};
  if (c.coin(1, 4)) size_.mods = c.range(1, 3), size_.items = 150;
  Prog p = gen_prog(c, size_.names);
  repair(c, &p, c.coin(5, 6));
  c.label(fmt("%d0 files", (int)p.mods.size() / 10));
  size_t deep = 0;
  for (auto& m : p.mods) for (auto& it : m.items) deep = std::max(deep, it.scopes.size());
  c.label(deep < 5 ? "up to 4 scopes deep" : deep < 10 ? "5 to 9 scopes deep" : "10 and more scopes deep");
  go(c, p);
}
// A long chain of .equ lines, each using the one before, through many files.
static void chain(Case& c) {
  size_ = {};
  Prog p;
  int n = c.range(2, c.coin() ? 8 : 40), len = c.range(n, 3 * n + 20);
  if (c.coin(1, 8)) n = 1, len = c.range(20, 300);
  for (int k = 0; k < n; ++k) p.mods.emplace_back(), p.mods.back().ns = c.coin(1, 5) ? "" : fmt("s%d", k);
  std::string prev, prev_ns;
  uint32_t at = 0x008000;
  int file = 0;
  for (int i = 0; i < len; ++i) {
    Item it;
    it.kind = Item::kEqu;
    it.labels.push_back({fmt("e%d", i), false});
    it.has_ref = i > 0;
    it.lit = c.draw(100);
    it.ref.name = prev, it.ref.ns = prev_ns, it.ref.qualified = true;
    it.ref.add = c.draw(10);
    p.mods[file].items.push_back(it);
    prev = it.labels[0].first, prev_ns = p.mods[file].ns;
    if (file + 1 < n && c.coin(2 * n, len)) ++file;
  }
  if (c.coin(1, 6)) {  // a cycle
    Item& first = p.mods[0].items[0];
    first.has_ref = true, first.ref.name = prev, first.ref.ns = prev_ns, first.ref.qualified = true;
  }
  for (auto& m : p.mods) {
    Item it;
    it.kind = Item::kData;
    it.ref.name = prev, it.ref.ns = prev_ns, it.ref.qualified = true;
    it.addr = at, at += 3;
    m.items.push_back(it);
    m.items[0].addr = it.addr;  // (for the .org line)
  }
  c.label(fmt("chain through %d0 files", file / 10));
  go(c, p);
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C23";
  cfg.rule = "programs of one to four files with nested scopes, exports, namespaces and .equ chains over a dozen names (and some with up to 24 files, 80 names and scopes 20 deep, and long chains of .equ lines through up to 40 files): valid ones, valid ones with one change, and unconstrained ones; non-trivial: must fail, or at least two names are used";
  cfg.tests = {{"valid", valid, 0, 3}, {"perturbed", perturbed, 0, 3}, {"unordered", unordered, 0, 2}, {"wild", wild, 0, 1}, {"large", large, 0, 1}, {"chain", chain, 0, 1}};
  cfg.quick_cases = 40000;
  cfg.thorough_cases = 1500000;
  return pbt::main_(cfg, argc, argv);
}
