// C18: expressions: value, type, grammar, copies.
#include "gen_expr.h"
#include "nsasm/parse.h"

using namespace nsasm;
using pbt::Case;
using pbt::fmt;

// Names resolve by a fixed function of their spelling; some have no value.
static ref::Val value_of(bool q, const std::string& m, const std::string& n) {
  if (n.back() == 'w') return {false, 0};
  uint64_t h = pbt::hash_str((q ? m + "::" : "") + n);
  switch (h % 4) {
    case 0: return {true, (int32_t)(h >> 32)};
    case 1: return {true, (int32_t)(h >> 60)};
    case 2: return {true, (int32_t)(h >> 40)};
    default: return {true, INT32_MIN};
  }
}
struct Ctx : LookupContext {
  ErrorOr<int> Lookup(const FullIdentifier& id) const override {
    auto v = value_of(id.Qualified(), id.Qualified() ? id.Module() : "", id.Identifier());
    if (!v.ok) return Error("nothing called that");
    return v.v;
  }
};
static ref::EP leaf_name(Case& c) {
  bool at = c.coin(1, 3);
  switch (c.weighted({3, 1, 1})) {
    case 0: return ref::Name(gen::name(c), at);
    case 1: return ref::QName("", gen::name(c), at);
    default: { std::string m = gen::name(c); return ref::QName(m, gen::name(c), at); }
  }
}
static void names_in(const ref::Expr& e, std::set<std::pair<std::string, std::string>>* s) {
  if (e.op) { names_in(*e.l, s); if (e.r) names_in(*e.r, s); return; }
  // unqualified names count as names of the global namespace when not local
  if (e.is_name) s->insert({e.qualified ? e.module : "", e.name});
}
struct NothingLocal : IsLocalContext { bool IsLocal(const FullIdentifier&) const override { return false; } };
struct SomeLocal : IsLocalContext { bool IsLocal(const FullIdentifier& id) const override { return id.Identifier().size() % 2; } };

static NumericType type_enum(ref::Ty t) {
  static const NumericType u[] = {T_unknown, T_byte, T_word, T_long}, s[] = {T_unknown, T_signed_byte, T_signed_word, T_signed_long};
  return t.sgn ? s[t.width] : u[t.width];
}

static void judge(Case& c, const ref::EP& e) {
  std::string text = gen::blank(c, false) + ref::Render(c, *e, 0) + gen::blank(c, false);
  if (c.coin(1, 10)) text += ";" + gen::word(c);
  c.note(text);
  auto r = ParseExpression(text);
  c.check_f(r.ok(), [&] { return "does not parse: " + r.error().ToString(); });
  ref::Val want = ref::Eval(*e, [](const ref::Expr& n) { return value_of(n.qualified, n.module, n.name); });
  c.nontrivial(e->op != 0);
  c.label(want.ok ? "has a value" : "has no value");
  auto same = [&](const Expression& x, const char* what) {
    auto v = x.Evaluate(Ctx());
    c.check_f(v.ok() == want.ok, [&] { return std::string(what) + (want.ok ? " has no value" : " has a value"); });
    if (want.ok) c.check(*v == want.v, fmt("%s is %d, want %d", what, *v, want.v));
    c.check(x.Type() == type_enum(ref::Type(*e)), std::string(what) + " has type " + ToString(x.Type()));
    c.check(x.RequiresLookup() == ref::UsesNames(*e), "RequiresLookup");
    if (!ref::UsesNames(*e)) {
      auto n = x.Evaluate(NullLookupContext());
      c.check(n.ok() == want.ok && (!want.ok || *n == want.v), "depends on the context though it has no names");
    } else {
      auto n = x.Evaluate(NullLookupContext());
      c.check(!n.ok(), "a name has a value without a context");
    }
    auto si = x.SimpleIdentifier();
    bool simple = !e->op && e->is_name && !e->qualified;
    c.check(si.has_value() == simple && (!simple || *si == e->name), "SimpleIdentifier");
    std::set<std::pair<std::string, std::string>> w, g;
    names_in(*e, &w);
    for (auto& id : x.ExternalNamesReferenced(NothingLocal())) { c.check(id.Qualified(), "an unqualified external name"); g.insert({id.Module(), id.Identifier()}); }
    c.check(w == g, "names referenced");
    g.clear();
    for (auto it = w.begin(); it != w.end();) it = it->second.size() % 2 ? w.erase(it) : std::next(it);
    for (auto& id : x.ExternalNamesReferenced(SomeLocal())) g.insert({id.Module(), id.Identifier()});
    c.check(w == g, "external names referenced");
  };
  same(*r, "the expression");
  ExpressionOrNull copy(*r);
  same(copy, "a copy");
  ExpressionOrNull assigned;
  assigned = copy;
  ExpressionOrNull moved(std::move(copy));
  same(assigned, "an assigned copy");
  same(moved, "a moved expression");
}

static void tree(Case& c) { judge(c, ref::GenExpr(c, c.range(0, 6), leaf_name)); }

// Many operators in a row, or one inside another.
static void deep(Case& c) {
  int shape = c.draw(4), n = c.range(10, 110);
  auto leaf = [&] { return c.coin(1, 6) ? leaf_name(c) : ref::Lit(gen::value(c, 1), 1); };
  ref::EP e = leaf();
  for (int i = 0; i < n; ++i) {
    char op = c.pick({'+', '-', '+', '-', '*', '/'});
    int s = shape < 3 ? shape : c.draw(3);
    if (s == 0) e = ref::Bin(op, e, leaf());
    else if (s == 1) e = ref::Bin(op, leaf(), e);
    else e = ref::Un(c.pick({'n', 'n', '<', '>', '^'}), e);
  }
  c.label(shape == 0 ? "long chain" : shape == 1 ? "nested to the right" : shape == 2 ? "many unary operators" : "deep");
  judge(c, e);
}

// Token strings around the grammar: accepted exactly when the grammar says so.
// The reference recogniser is a two-state machine over a parenthesis depth, not
// a recursive descent.
static bool accepts(const std::vector<std::string>& t) {
  int depth = 0;
  bool operand = true;  // expecting an operand
  for (size_t i = 0; i < t.size(); ++i) {
    const std::string& k = t[i];
    if (operand) {
      if (k == "-" || k == "<" || k == ">" || k == "^") continue;
      if (k == "(") { ++depth; continue; }
      if (k == "1") { operand = false; continue; }
      size_t j = i;
      if (t[j] == "@") ++j;
      if (j < t.size() && t[j] == "::") { if (j + 1 < t.size() && t[j + 1] == "n") { i = j + 1; operand = false; continue; } return false; }
      if (j < t.size() && t[j] == "n") {
        if (j + 1 < t.size() && t[j + 1] == "::") { if (j + 2 < t.size() && t[j + 2] == "n") j += 2; else return false; }
        i = j; operand = false; continue;
      }
      return false;
    }
    if (k == "+" || k == "-" || k == "*" || k == "/") { operand = true; continue; }
    if (k == ")" && depth) { --depth; continue; }
    return false;
  }
  return !operand && depth == 0;
}
static void grammar(Case& c) {
  static const char* kinds[] = {"n", "1", "-", "+", "*", "/", "(", ")", "::", "@", "<", ">", "^", "#", ",", "++", "x", "lda", ".db", "[", "]"};
  std::vector<std::string> t;
  if (c.coin(3, 4)) {
    // a valid skeleton with at most one edit
    bool operand = true;
    int depth = 0;
    for (int n = c.range(1, 14); n > 0 || operand || depth; --n) {
      if (operand) {
        if (n > 0 && c.coin(1, 3)) { t.push_back(c.pick({"-", "<", ">", "^"})); continue; }
        if (n > 0 && c.coin(1, 4)) { t.push_back("("); ++depth; continue; }
        if (c.coin(1, 3)) t.push_back("1");
        else {
          if (c.coin(1, 4)) t.push_back("@");
          if (c.coin(1, 6)) t.push_back("::");
          t.push_back("n");
          if (c.coin(1, 6) && (t.size() < 2 || t[t.size() - 2] != "::")) t.push_back("::"), t.push_back("n");
        }
        operand = false;
      } else if (depth && (n <= 0 || c.coin(1, 3))) t.push_back(")"), --depth;
      else if (n > 0) t.push_back(c.pick({"+", "-", "*", "/"})), operand = true;
    }
    switch (c.weighted({2, 1, 1, 1})) {
      case 1: t.insert(t.begin() + c.draw(t.size() + 1), c.pick(kinds)); break;
      case 2: t.erase(t.begin() + c.draw(t.size())); break;
      case 3: t[c.draw(t.size())] = c.pick(kinds); break;
    }
  } else for (auto m = c.many(5, 12); m.more();) t.push_back(c.pick(kinds));
  std::string text;
  for (auto& k : t) text += (k == "n" ? gen::name(c) : k == "1" ? gen::number(c, c.draw(256), 1) : k) + " ";
  bool want = accepts(t);
  c.note(text);
  c.nontrivial(t.size() >= 2);
  c.label(want ? "in the grammar" : "not in the grammar");
  auto r = ParseExpression(text);
  c.check(r.ok() == want, want ? "rejected" : "accepted, though it is not an expression");
}

// Expressions as the disassembler builds them: constants and names of any type,
// and constants under a label; copying keeps everything about them.
static void built(Case& c) {
  static const NumericType types[] = {T_unknown, T_byte, T_word, T_long, T_signed_byte, T_signed_word, T_signed_long};
  static const int bits[] = {0, 8, 16, 24, 8, 16, 24};
  int t = c.draw(7), v = c.coin() ? gen::value(c, 3) : (int)c.draw(1ull << 32);
  if (c.coin(1, 4) && v != INT32_MIN) v = -v;
  // The value a constant of the type has.
  int want = v;
  if (bits[t]) {
    int64_t m = 1ll << bits[t], w = ((int64_t)v % m + m) % m;
    if (t >= 4 && w >= m / 2) w -= m;
    want = w;
  }
  ExpressionOrNull e;
  std::string name = gen::name(c);
  ref::Val named = value_of(false, "", name);
  bool id = c.coin(1, 4) && named.ok;
  if (id) {
    want = named.v;
    e = std::make_unique<IdentifierExpression>(FullIdentifier(name), types[t]);
  } else {
    e = std::make_unique<Literal>(v, types[t]);
  }
  std::string shown = e.ToString(), label;
  auto same = [&](const ExpressionOrNull& x, const char* what) {
    c.evals(1);
    c.check(static_cast<bool>(x), std::string(what) + " is empty");
    auto r = x.Evaluate(Ctx());
    c.check_f(r.ok() && *r == want, [&] { return std::string(what) + (r.ok() ? fmt(" is %d", *r) : " has no value") + fmt(", want %d", want); });
    c.check(x.Type() == types[t], std::string(what) + " has type " + ToString(x.Type()));
    c.check(x.ToString() == (label.empty() ? shown : label), std::string(what) + " is written " + x.ToString());
    c.check(x.IsLabel() == !label.empty(), std::string(what) + (label.empty() ? " is a label" : " is no label"));
    c.check(x.RequiresLookup() == (id || !label.empty()), "RequiresLookup");
    c.check(id == x.SimpleIdentifier().has_value() || !label.empty(), "SimpleIdentifier");
  };
  c.note((id ? "name " + name : fmt("constant %d", v)) + " of type " + ToString(types[t]));
  same(e, "the expression");
  for (auto m = c.many(3, 8); m.more();) switch (c.draw(4)) {
      case 0: { c.note("copy"); ExpressionOrNull x(e); same(e, "the original of a copy"); e = std::move(x); same(e, "a copy"); break; }
      case 1: { c.note("assign"); ExpressionOrNull x; x = e; same(x, "an assigned copy"); e = x; same(e, "an expression assigned back"); break; }
      case 2: { c.note("move"); ExpressionOrNull x(std::move(e)); same(x, "a moved expression"); e = std::move(x); same(e, "an expression moved back"); break; }
      default: {
        std::string l = gen::name(c);
        c.note("label " + l);
        ExpressionOrNull before(e);
        e.ApplyLabel(l);
        same(before, "a copy made before labelling");
        label = l;
        same(e, "a labelled expression");
      }
    }
  c.nontrivial(true);
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C18";
  cfg.rule = "expression trees of depth up to 6, and chains and nestings of up to 110 operators, rendered with minimal plus random parentheses and blanks, token strings in or near the grammar, and constants and names of every type that are copied, assigned, moved and labelled; non-trivial: a tree with an operator, at least two tokens, or a built expression";
  cfg.tests = {{"tree", tree, 0, 40}, {"grammar", grammar, 0, 20}, {"deep", deep, 0, 1}, {"built", built, 0, 10}};
  cfg.quick_cases = 250000;
  cfg.thorough_cases = 5000000;
  return pbt::main_(cfg, argc, argv);
}
