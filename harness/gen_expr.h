// Expressions: a tree, its text, its value and its type, by an independent model.
#ifndef VERIF_GEN_EXPR_H_
#define VERIF_GEN_EXPR_H_
#include <memory>
#include <functional>
#include "gen_text.h"
namespace ref {
struct Expr;
using EP = std::shared_ptr<Expr>;
struct Expr {
  char op = 0;          // 0 leaf, + - * /, n (negate), < > ^
  EP l, r;              // operands (unary: l)
  bool is_name = false;
  std::string module, name;  // module "" with qualified: the global namespace
  bool qualified = false, at = false;
  uint32_t value = 0;   // literal
  int width = 0;        // literal: 0 none, 1..3
};
// Two's complement 32-bit arithmetic.  nullopt: no value.
struct Val { bool ok; int32_t v; };
inline Val Eval(const Expr& e, const std::function<Val(const Expr&)>& name) {
  if (!e.op) return e.is_name ? name(e) : Val{true, (int32_t)e.value};
  Val a = Eval(*e.l, name), b = e.r ? Eval(*e.r, name) : Val{true, 0};
  if (!a.ok || !b.ok) return {false, 0};
  uint32_t x = a.v, y = b.v;
  switch (e.op) {
    case '+': return {true, (int32_t)(x + y)};
    case '-': return {true, (int32_t)(x - y)};
    case '*': return {true, (int32_t)(x * y)};
    case 'n': return {true, (int32_t)(0 - x)};
    case '<': return {true, (int32_t)(x & 255)};
    case '>': return {true, (int32_t)(x >> 8 & 255)};
    case '^': return {true, (int32_t)(x >> 16 & 255)};
    default: {  // '/': truncates toward zero
      if (b.v == 0) return {false, 0};
      int64_t q = (int64_t)a.v / (int64_t)b.v;
      return {true, (int32_t)(uint32_t)(uint64_t)q};
    }
  }
}
// width 0..3, negative sign flag separately
struct Ty { int width; bool sgn; };
inline Ty Type(const Expr& e) {
  if (!e.op) return e.is_name ? Ty{e.at ? 3 : 2, false} : Ty{e.width, false};
  if (e.op == 'n') { Ty t = Type(*e.l); return {t.width, t.width != 0}; }
  if (e.op == '<' || e.op == '>' || e.op == '^') return {1, false};
  Ty a = Type(*e.l), b = Type(*e.r);
  if (!a.width) return b;
  if (!b.width) return a;
  return {std::max(a.width, b.width), a.sgn || b.sgn};
}
inline bool UsesNames(const Expr& e) { return e.op ? UsesNames(*e.l) || (e.r && UsesNames(*e.r)) : e.is_name; }

// Binding strength: + - : 1, * / : 2, unary: 3, leaf: 4.
inline int Strength(const Expr& e) { return !e.op ? 4 : e.op == '+' || e.op == '-' ? 1 : e.op == '*' || e.op == '/' ? 2 : 3; }

inline std::string Leaf(pbt::Case& c, const Expr& e) {
  if (!e.is_name) return gen::number(c, e.value, e.width);
  std::string s = e.at ? "@" : "";
  if (e.at) s += gen::blank(c, false);
  if (e.qualified) s += e.module + gen::blank(c, false) + "::" + gen::blank(c, false);
  return s + e.name;
}
// Text with the fewest parentheses the grammar needs, plus random redundant ones.
inline std::string Render(pbt::Case& c, const Expr& e, int need) {
  std::string s;
  if (!e.op) s = Leaf(c, e);
  else if (Strength(e) == 3) {
    std::string in = Render(c, *e.l, 3);
    // "--" is a token of its own
    s = std::string(1, e.op == 'n' ? '-' : e.op) + gen::blank(c, e.op == 'n' && in[0] == '-') + in;
  } else {
    int k = Strength(e);
    std::string a = Render(c, *e.l, k), b = Render(c, *e.r, k + 1);
    s = a + gen::blank(c, false) + e.op + gen::blank(c, e.op == '-' && b[0] == '-') + b;
  }
  if (Strength(e) < need || c.coin(1, 12)) s = "(" + gen::blank(c, false) + s + gen::blank(c, false) + ")";
  return s;
}
// As Render, but does not start with a parenthesis.
inline std::string Render0(pbt::Case& c, const EP& e) {
  std::string s = Render(c, *e, 0);
  for (int t = 0; t < 20 && s[0] == '('; ++t) s = Render(c, *e, 0);
  return s[0] == '(' ? "0+" + s : s;
}
inline EP Lit(uint32_t v, int w) { auto e = std::make_shared<Expr>(); e->value = v; e->width = w; return e; }
inline EP Name(const std::string& n, bool at = false) { auto e = std::make_shared<Expr>(); e->is_name = true; e->name = n; e->at = at; return e; }
inline EP QName(const std::string& m, const std::string& n, bool at = false) { auto e = Name(n, at); e->qualified = true; e->module = m; return e; }
inline EP Un(char op, EP a) { auto e = std::make_shared<Expr>(); e->op = op; e->l = a; return e; }
inline EP Bin(char op, EP a, EP b) { auto e = Un(op, a); e->r = b; return e; }
inline EP GenExpr(pbt::Case& c, int depth, const std::function<EP(pbt::Case&)>& name) {
  int k = depth <= 0 ? c.weighted({3, 1}) : c.weighted({3, 1, 5, 2});
  switch (k) {
    case 0: { int w = c.range(0, 3); return Lit(gen::value(c, w), w); }
    case 1: if (name) return name(c); return Lit(c.draw(256), 1);
    case 2: { char op = c.pick({'+', '-', '*', '/'}); EP a = GenExpr(c, depth - 1, name); return Bin(op, a, GenExpr(c, depth - 1, name)); }
    default: { char op = c.pick({'n', '<', '>', '^'}); return Un(op, GenExpr(c, depth - 1, name)); }
  }
}
}  // namespace ref
#endif
