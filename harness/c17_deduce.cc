// C17: operand syntax and size select the addressing mode.
#include "nsasm/parse.h"
#include "nsasm/statement.h"
#include "nsasm_map.h"
#include "pbt.h"

using namespace nsasm;
using pbt::Case;
using pbt::fmt;

struct Arg { std::string text; ref::Operand o; };

// Operand texts of every size class, with spellings that have the same size.
static Arg gen_arg(Case& c, int cls) {
  long long v;
  switch (cls) {
    case 0:  // no size: decimal literal or arithmetic on decimals
      v = c.pick({0LL, 5LL, 127LL, 128LL, 255LL, 256LL, 32767LL, 32768LL, 65535LL, 65536LL, 16777215LL, 70000LL});
      switch (c.draw(5)) {
        case 0: return {fmt("%lld", v), {0, true, v, false}};
        case 1: return {fmt("-%lld", v), {0, true, -v, false}};
        case 2: return {fmt("%lld+%lld", v, 1LL), {0, true, v + 1, false}};
        case 3: return {fmt("-(%lld)-1", v), {0, true, -v - 1, false}};
        default: return {fmt("%lld/0", v), {0, false, 0, false}};
      }
    case 1:
      v = c.draw(256);
      switch (c.draw(6)) {
        case 0: return {fmt("$%02llx", v), {1, true, v, false}};
        case 1: return {fmt("<$%04llx", v * 257), {1, true, v, false}};
        case 2: return {"<name", {1, false, 0, false}};
        case 3: return {"^@name", {1, false, 0, false}};
        case 4: return {fmt("-$%02llx", v), {1, true, -v, false}};
        default: return {fmt("%%%d%d%d", int(v & 1), int(v >> 1 & 1), int(v >> 2 & 1)), {1, true, (v & 1) << 2 | (v >> 1 & 1) << 1 | (v >> 2 & 1), false}};
      }
    case 2:
      v = c.draw(65536);
      switch (c.draw(6)) {
        case 0: return {fmt("$%04llx", v), {2, true, v, false}};
        case 1: return {"name+1", {2, false, 0, false}};
        case 2: return {"mod::name", {2, false, 0, false}};
        case 3: return {"::name", {2, false, 0, false}};
        case 4: return {fmt("$%02llx*$%04llx", v & 255, v), {2, true, 0, false}};
        default: return {fmt("$%03llx", v & 0xfff), {2, true, v & 0xfff, false}};
      }
    case 3:
      v = c.draw(1 << 24);
      switch (c.draw(4)) {
        case 0: return {fmt("$%06llx", v), {3, true, v, false}};
        case 1: return {"@mod::name", {3, false, 0, false}};
        case 2: return {fmt("$%05llx", v & 0xfffff), {3, true, v & 0xfffff, false}};
        default: return {"@name-3", {3, false, 0, false}};
      }
    case 4: return {c.pick({"name", "X1", "loop_9", "_"}), {2, false, 0, true}};
    default: return {c.pick({"@name", "@loop"}), {3, false, 0, true}};
  }
}

static const char* kFormText[] = {"", " A", " #%1", " %1", " %1,X", " %1,Y", " (%1)", " (%1,X)", " (%1),Y", " [%1]", " [%1],Y", " %1,S", " (%1,S),Y", " #%1,#%2"};

static std::string subst(std::string f, const std::string& a, const std::string& b) {
  std::string r;
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] == '%') { r += f[++i] == '1' ? a : b; }
    else r += f[i];
  }
  return r;
}

static void one(Case& c, const std::string& mn, ref::Form f, int cls) {
  Arg a = gen_arg(c, cls), b = gen_arg(c, c.weighted({3, 6, 1, 1}));
  // In "(x)" directly after the mnemonic the operand is an indirection; a bare
  // operand must therefore not start with a parenthesis.
  std::string text = mn + subst(kFormText[f], a.text, b.text);
  c.note(text);
  auto tokens = Tokenize(text, Location());
  c.check(tokens.ok(), "does not tokenize");
  auto parsed = Parse(*tokens);
  std::string want = f == ref::F_none || f == ref::F_A ? ref::Deduce(mn, f, {}) : ref::Deduce(mn, f, a.o, b.o);
  c.nontrivial(want != "");
  c.label(want == "" ? "rejected" : "accepted");
  if (want == "") { c.check(!parsed.ok(), "must be rejected"); return; }
  c.check(parsed.ok(), "must be accepted with mode " + want + (parsed.ok() ? "" : ": " + parsed.error().ToString()));
  c.check(parsed->size() == 1 && absl::holds_alternative<Statement>(parsed->front()), "must be one statement");
  auto* ins = absl::get<Statement>(parsed->front()).Instruction();
  c.check(ins != nullptr && ins->mnemonic == ref::MnEnum(mn), "mnemonic");
  c.check(ins->addressing_mode == ref::ModeEnum(want), "mode " + ToString(ins->addressing_mode) + ", want " + want);
  if (a.o.has_value && f >= ref::F_imm && a.text.find('*') == std::string::npos) {
    auto v = ins->arg1.Evaluate(NullLookupContext());
    c.check(v.ok() && *v == a.o.value, "operand value");
  }
}

static const int kClasses = 6;
static void grid(Case& c) {
  uint64_t i = c.index;
  int cls = i % kClasses; i /= kClasses;
  ref::Form f = ref::Form(i % ref::kForms); i /= ref::kForms;
  one(c, ref::AllNames()[i], f, cls);
}
static void sampled(Case& c) {
  struct Combo { std::string mn; int form, cls; };
  static const std::vector<Combo> good = [] {
    std::vector<Combo> v;
    for (auto& mn : ref::AllNames())
      for (int f = 0; f < ref::kForms; ++f)
        for (int k = 0; k < kClasses; ++k)
          if (ref::Deduce(mn, ref::Form(f), {k < 4 ? k : k == 4 ? 2 : 3, true, 1, k >= 4}, {1, true, 1, false}) != "") v.push_back({mn, f, k});
    return v;
  }();
  if (c.coin(3, 4)) {
    const Combo& g = c.pick(good);
    return one(c, g.mn, ref::Form(g.form), g.cls);
  }
  one(c, c.pick(ref::AllNames()), ref::Form(c.draw(ref::kForms)), c.draw(kClasses));
}

// .b / .w suffixes: accepted exactly on instructions whose data width varies.
static void suffix(Case& c) {
  const std::string& mn = ref::AllNames()[c.index];
  c.nontrivial();
  for (const char* s : {".b", ".w", ".B", ".W"}) {
    for (auto& o : ref::Matrix()) {
      if (o.mn != ref::Real(mn)) continue;
      for (int f = 0; f < ref::kForms; ++f) {
        for (const char* a : {"$12", "$1234", "$123456", "name"}) {
          int w = a[0] == 'n' ? 2 : (strlen(a) - 1) / 2;
          if (ref::Deduce(mn, ref::Form(f), {w, true, 0x12, a[0] == 'n'}, {1, true, 0x12, false}) != o.mode) continue;
          std::string text = mn + s + subst(kFormText[f], a, "$12");
          auto tokens = Tokenize(text, Location());
          c.check(tokens.ok(), text + " does not tokenize");
          auto parsed = Parse(*tokens);
          bool want = ref::WidthM().count(mn) || ref::WidthX().count(mn);
          c.check(parsed.ok() == want, text + (want ? " must be accepted" : " must be rejected"));
          c.evals(1);
          if (want) c.check(absl::get<Statement>(parsed->front()).Instruction()->suffix == (tolower(s[1]) == 'b' ? S_b : S_w), text + ": suffix");
        }
      }
    }
  }
  c.note(mn + " with a suffix, in all its modes");
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C17";
  cfg.rule = "complete grid of all 93 mnemonics x 14 operand forms x 6 operand size classes (each with random spellings) plus random repeats; non-trivial: the reference accepts the combination";
  cfg.tests = {{"grid", grid, ref::AllNames().size() * ref::kForms * kClasses}, {"suffix", suffix, ref::AllNames().size()}, {"random", sampled}};
  cfg.quick_cases = 400000;
  cfg.thorough_cases = 5000000;
  return pbt::main_(cfg, argc, argv);
}
