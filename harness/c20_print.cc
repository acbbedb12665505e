// C20: a statement's printed form reads back as the same statement.
#include "cmp_stmt.h"

using namespace nsasm;
using pbt::Case;
using pbt::fmt;

// Compound operands print in prefix notation, op+(1, op*(2, 3)).  Turn those
// into infix notation; "0+" keeps a leading parenthesis from reading as an
// indirection, and has no effect on value or type.
static bool opens(const std::string& s, size_t i) {
  return s.compare(i, 2, "op") == 0 && i + 3 < s.size() && strchr("+-*/<>^", s[i + 2]) && s[i + 3] == '(' && (i == 0 || (!isalnum((unsigned char)s[i - 1]) && s[i - 1] != '_'));
}
static std::string operand(const std::string& s, size_t* i);
static std::string compound(const std::string& s, size_t* i) {
  char op = s[*i + 2];
  *i += 4;
  std::string a = operand(s, i), r;
  if (s.compare(*i, 2, ", ") == 0) {
    *i += 2;
    std::string b = operand(s, i);
    r = "(" + a + " " + op + " " + b + ")";
  } else r = std::string("(") + op + " " + a + ")";
  if (*i < s.size() && s[*i] == ')') ++*i;
  return r;
}
static std::string operand(const std::string& s, size_t* i) {
  if (opens(s, *i)) return compound(s, i);
  size_t b = *i;
  while (*i < s.size() && s[*i] != ',' && s[*i] != ')') ++*i;
  return s.substr(b, *i - b);
}
static std::string infix(const std::string& s) {
  std::string r;
  for (size_t i = 0; i < s.size();) {
    if (opens(s, i)) r += "0+" + compound(s, &i);
    else r += s[i++];
  }
  return r;
}

static void parsed(Case& c) {
  std::string text = gen::line(c);
  std::vector<ref::Item> want;
  if (!ref::ParseText(text, &want)) return;
  Location loc("some.asm", 5);
  auto tokens = Tokenize(text, loc);
  c.check(tokens.ok(), "does not tokenize");
  auto items = Parse(*tokens);
  c.check(items.ok() && items->size() == want.size(), "does not parse");
  c.note(text);
  for (size_t i = 0; i < want.size(); ++i) {
    auto* s = absl::get_if<Statement>(&(*items)[i]);
    if (!s) continue;
    c.nontrivial();
    std::string p = s->ToString();
    c.note("prints as: " + p);
    c.label(want[i].st.directive ? want[i].st.name : "instruction");
    auto t2 = Tokenize(infix(p), loc);
    c.check(t2.ok(), "its printed form does not tokenize");
    auto again = Parse(*t2);
    c.check_f(again.ok(), [&] { return "its printed form does not parse: " + again.error().ToString(); });
    c.check(again->size() == 1, "its printed form is not one statement");
    auto* s2 = absl::get_if<Statement>(&again->front());
    c.check(s2 != nullptr, "its printed form is not a statement");
    std::string d = ref::DiffStmt(*s2, want[i].st);
    c.check(d.empty(), "its printed form means something else: " + d);
    if (infix(p) == p) c.check(s2->ToString() == p, "prints differently the second time: " + s2->ToString());
  }
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C20";
  cfg.rule = "all kinds of statements; non-trivial: there is one";
  cfg.tests = {{"parsed", parsed}};
  cfg.quick_cases = 200000;
  cfg.thorough_cases = 5000000;
  return pbt::main_(cfg, argc, argv);
}
