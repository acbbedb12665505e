// C09: mnemonic, suffix and directive names.
#include "pbt.h"
#include "ref_names.h"

using namespace nsasm;
using pbt::Case;
using pbt::fmt;

static std::string lower(std::string s) { for (char& ch : s) if (ch >= 'A' && ch <= 'Z') ch += 32; return s; }

static void check_string(Case& c, const std::string& s) {
  std::string l = lower(s);
  c.evals(3);
  const ref::MName* m = nullptr;
  for (auto& e : ref::kMnemonics) if (l == e.name) m = &e;
  auto gm = ToMnemonic(s);
  c.check_f(gm.has_value() == (m != nullptr) && (!m || *gm == m->m), [&] { return fmt("ToMnemonic(\"%s\") is %s", s.c_str(), gm ? std::string(ToString(*gm)).c_str() : "nothing"); });
  const ref::SName* x = nullptr;
  for (auto& e : ref::kSuffixes) if (l == e.name) x = &e;
  auto gs = ToSuffix(s);
  c.check_f(gs.has_value() == (x != nullptr) && (!x || *gs == x->s), [&] { return fmt("ToSuffix(\"%s\") is wrong", s.c_str()); });
  const ref::DName* d = nullptr;
  for (auto& e : ref::kDirectives) if (l == e.name) d = &e;
  auto gd = ToDirectiveName(s);
  c.check_f(gd.has_value() == (d != nullptr) && (!d || *gd == d->d), [&] { return fmt("ToDirectiveName(\"%s\") is wrong", s.c_str()); });
}

static const int kM = std::size(ref::kMnemonics), kS = std::size(ref::kSuffixes), kD = std::size(ref::kDirectives);

static std::string name_of(int i) { return i < kM ? ref::kMnemonics[i].name : i < kM + kS ? ref::kSuffixes[i - kM].name : ref::kDirectives[i - kM - kS].name; }

// Every name, in every combination of letter case, and every one-edit neighbour.
static void names(Case& c) {
  std::string n = name_of(c.index);
  c.note("name " + n);
  c.nontrivial();
  std::string printed;
  if ((int)c.index < kM) printed = std::string(ToString(ref::kMnemonics[c.index].m));
  else if ((int)c.index < kM + kS) printed = std::string(ToString(ref::kSuffixes[c.index - kM].s));
  else printed = std::string(ToString(ref::kDirectives[c.index - kM - kS].d));
  c.check_f(lower(printed) == n, [&] { return "printed as \"" + printed + "\", want " + n; });
  check_string(c, printed);
  for (int mask = 0; mask < (1 << n.size()); ++mask) {
    std::string s = n;
    for (size_t i = 0; i < s.size(); ++i) if (mask >> i & 1) s[i] = toupper(s[i]);
    check_string(c, s);
  }
  for (size_t i = 0; i <= n.size(); ++i) {
    for (int ch = 0; ch < 256; ++ch) {
      check_string(c, n.substr(0, i) + char(ch) + n.substr(i));
      if (i < n.size()) check_string(c, n.substr(0, i) + char(ch) + n.substr(i + 1));
    }
    if (i < n.size()) check_string(c, n.substr(0, i) + n.substr(i + 1));
  }
}

// Every three-letter string.
static void triples(Case& c) {
  std::string s = {char('a' + c.index / 26), char('a' + c.index % 26), 'a'};
  c.note("names starting " + s.substr(0, 2));
  for (char ch = 'a'; ch <= 'z'; ++ch) { s[2] = ch; check_string(c, s); check_string(c, "." + s); }
}

static void whole(Case& c) {
  c.note("lists and out-of-range enumerators");
  c.nontrivial();
  auto all = AllMnemonics();
  std::set<int> seen(all.begin(), all.end());
  c.check_f((int)all.size() == kM && (int)seen.size() == kM, [&] { return fmt("AllMnemonics has %zu entries, %zu distinct; want %d", all.size(), seen.size(), kM); });
  for (auto& e : ref::kMnemonics) c.check_f(seen.count(e.m), [&] { return fmt("AllMnemonics lacks %s", e.name); });
  auto sfx = AllSuffixes();
  c.check((int)sfx.size() == kS && std::set<int>(sfx.begin(), sfx.end()) == std::set<int>({S_b, S_w}), "AllSuffixes");
  c.check(ToString(S_none).empty(), "the absent suffix prints as nothing");
  std::set<std::string> names;
  for (Mnemonic m : all) { auto n = std::string(ToString(m)); c.check(!n.empty() && names.insert(lower(n)).second, "two mnemonics print alike: " + n); auto b = ToMnemonic(n); c.check(b && *b == m, "mnemonic " + n + " does not read back"); }
}

static void random_strings(Case& c) {
  std::string s;
  if (c.coin()) {
    s = name_of(c.range(0, kM + kS + kD - 1));
    if (c.coin(1, 3)) s += name_of(c.range(0, kM + kS + kD - 1));
    for (char& ch : s) if (c.coin(1, 3)) ch = c.coin() ? toupper(ch) : (char)c.range(1, 255);
  } else {
    for (auto m = c.many(4, 12); m.more();) s += (char)c.range(0, 255);
  }
  c.note("string \"" + s + "\"");
  c.nontrivial(!s.empty());
  check_string(c, s);
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C09";
  cfg.rule = "enumerated: all names in all letter cases, all their one-edit neighbours, all three-letter strings; then random strings; non-trivial: a non-empty string";
  cfg.tests = {{"names", names, (uint64_t)(kM + kS + kD)}, {"triples", triples, 676}, {"whole", whole, 1}, {"random", random_strings}};
  cfg.quick_cases = 3000000;
  cfg.thorough_cases = 20000000;
  return pbt::main_(cfg, argc, argv);
}
