// C16: a source line means exactly the labels and statements written on it.
#include "cmp_stmt.h"

using namespace nsasm;
using pbt::Case;
using pbt::fmt;

static void run(Case& c, std::string text) {
  c.note(text);
  std::vector<ref::Item> want;
  bool ok = ref::ParseText(text, &want);
  Location loc("some.asm", 23);
  auto tokens = Tokenize(text, loc);
  auto parsed = tokens.ok() ? Parse(*tokens) : ErrorOr<std::vector<absl::variant<Statement, ParsedLabel>>>(tokens.error());
  c.nontrivial(!ok || !want.empty());
  c.label(ok ? "accepted" : "rejected");
  c.check_f(parsed.ok() == ok, [&] { return parsed.ok() ? std::string("accepted, though it is not in the grammar") : "rejected: " + parsed.error().ToString(); });
  if (!ok) {
    c.check_f(parsed.error().ToString().find("some.asm:23") != std::string::npos, [&] { return "the error does not say where: " + parsed.error().ToString(); });
    return;
  }
  c.check(parsed->size() == want.size(), fmt("%zu labels and statements, want %zu", parsed->size(), want.size()));
  for (size_t i = 0; i < want.size(); ++i) {
    auto& g = (*parsed)[i];
    if (want[i].label) {
      auto* l = absl::get_if<ParsedLabel>(&g);
      c.check(l && l->IsIdentifier() && l->Identifier() == want[i].name && l->IsExported() == want[i].exported, fmt("item %zu is not the label ", i) + want[i].name);
      c.label("label");
    } else {
      auto* s = absl::get_if<Statement>(&g);
      c.check(s != nullptr, fmt("item %zu is not a statement", i));
      std::string d = ref::DiffStmt(*s, want[i].st);
      c.check(d.empty(), fmt("item %zu (%s): ", i, want[i].st.name.c_str()) + d);
      c.check(s->Location().ToString() == loc.ToString(), "a statement does not carry its location");
      c.label(want[i].st.directive ? want[i].st.name : "instruction");
    }
  }
}

static void valid(Case& c) { run(c, gen::line(c)); }
static void damaged(Case& c) {
  std::string s = gen::line(c);
  for (int n = c.range(1, 2); n > 0; --n) gen::damage(c, &s);
  run(c, s);
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C16";
  cfg.rule = "lines of one to four labels, instructions (all mnemonics, operand forms and widths), directives and scope braces, and the same lines after one or two random edits; non-trivial: the line contains a label or statement, or is rejected";
  cfg.tests = {{"valid", valid}, {"damaged", damaged}};
  cfg.quick_cases = 200000;
  cfg.thorough_cases = 5000000;
  return pbt::main_(cfg, argc, argv);
}
