// Source lines: mostly valid, with optional damage.
#ifndef VERIF_GEN_LINE_H_
#define VERIF_GEN_LINE_H_
#include "gen_expr.h"
#include "ref_parse.h"
namespace gen {

inline ref::EP any_name(pbt::Case& c, bool at) {
  switch (c.weighted({4, 1, 1})) {
    case 0: return ref::Name(name(c), at);
    case 1: return ref::QName("", name(c), at);
    default: { std::string m = name(c); return ref::QName(m, name(c), at); }
  }
}
// An expression whose type has the given width.
inline ref::EP sized_expr(pbt::Case& c, int width, int depth = 2) {
  switch (depth > 0 ? c.weighted({5, 3, 2, 1, 1}) : c.weighted({5, 3})) {
    case 0: return ref::Lit(value(c, width), width);
    case 1:
      if (width >= 2) return any_name(c, width == 3);
      if (width == 1) return ref::Un(c.pick({'<', '>', '^'}), any_name(c, c.coin()));
      return ref::Lit(value(c, 0), 0);
    case 2: { char op = c.pick({'+', '-', '*', '/'}); ref::EP a = sized_expr(c, width, depth - 1); int w2 = c.range(0, width); ref::EP b = sized_expr(c, w2, depth - 1); return c.coin() ? ref::Bin(op, a, b) : ref::Bin(op, b, a); }
    case 3: return ref::Un('n', sized_expr(c, width, depth - 1));
    default: return width == 1 ? ref::Un(c.pick({'<', '>', '^'}), sized_expr(c, c.range(0, 3), depth - 1)) : ref::Bin('+', sized_expr(c, 0, depth - 1), sized_expr(c, width, depth - 1));
  }
}
inline std::string mode_name(pbt::Case& c) {
  return mixcase(c, c.pick({"unk", "emu", "native", "m8", "m16", "x8", "x16", "m8x8", "m8x16", "m16x8", "m16x16"}));
}
inline std::string conv_text(pbt::Case& c) {
  switch (c.weighted({3, 1, 1})) {
    case 0: return "";
    case 1: return " " + mixcase(c, "yields") + " " + mode_name(c);
    default: return " " + mixcase(c, "noreturn");
  }
}
struct Combo { std::string mn; int form, width; bool is_name; };
inline const std::vector<Combo>& combos() {
  static const std::vector<Combo> v = [] {
    std::vector<Combo> r;
    for (auto& mn : ref::AllNames())
      for (int f = 0; f < ref::kForms; ++f)
        for (int w = 0; w < 4; ++w)
          for (int nm = 0; nm < 2; ++nm) {
            if (nm && w < 2) continue;
            if (f <= ref::F_A && (w || nm)) continue;
            if (ref::Deduce(mn, ref::Form(f), {w, true, 1, nm > 0}, {1, true, 1, false}) != "" && (!nm || ref::IsBranch(mn))) r.push_back({mn, f, w, nm > 0});
          }
    return r;
  }();
  return v;
}
inline std::string operand_text(pbt::Case& c, int form, int width, bool is_name) {
  static const char* shape[] = {"", "A", "#%", "%", "%,X", "%,Y", "(%)", "(%,X)", "(%),Y", "[%]", "[%],Y", "%,S", "(%,S),Y", "#%,#$"};
  std::string r;
  for (const char* p = shape[form]; *p; ++p) {
    if (p != shape[form]) r += blank(c, false);
    if (*p == '%' || *p == '$') {
      ref::EP e = is_name ? ref::Name(name(c), c.coin(1, 4)) : *p == '$' ? sized_expr(c, 1, 1) : sized_expr(c, width);
      r += ref::Render(c, *e, 0);
    } else r += c.coin(1, 4) ? (char)tolower(*p) : *p;
  }
  return r;
}
inline std::string instruction_text(pbt::Case& c) {
  Combo k = c.coin(9, 10) ? c.pick(combos()) : Combo{c.pick(ref::AllNames()), (int)c.draw(ref::kForms), (int)c.draw(4), false};
  std::string s = mixcase(c, k.mn);
  if (c.coin(1, 6)) s += blank(c, false) + mixcase(c, c.pick({".b", ".w"}));
  std::string o = operand_text(c, k.form, k.width, k.is_name);
  if (!o.empty()) s += blank(c, ref::Lower(s).back() != 'b' || true) + o;
  if (k.mn == "jsr" || k.mn == "jsl" || c.coin(1, 40)) s += conv_text(c);
  return s;
}
inline std::string directive_text(pbt::Case& c) {
  switch (c.weighted({4, 1, 1, 2, 2, 2, 1, 1, 1, 1})) {
    case 0: {
      std::string s = mixcase(c, c.pick({".db", ".dw", ".dl"})) + " ";
      for (int n = c.coin(1, 150) ? c.range(5, 400) : c.range(1, 4), i = 0; i < n; ++i) s += (i ? blank(c, false) + "," + blank(c, false) : "") + ref::Render(c, *sized_expr(c, c.range(0, 3)), 0);
      return s;
    }
    case 1: return mixcase(c, ".begin");
    case 2: return mixcase(c, ".end");
    case 3: return mixcase(c, ".entry") + " " + mode_name(c) + conv_text(c);
    case 4: return mixcase(c, ".mode") + " " + mode_name(c);
    case 5: return mixcase(c, ".remote") + " " + ref::Render(c, *sized_expr(c, c.range(0, 3)), 0) + " " + mode_name(c) + conv_text(c);
    case 6: return mixcase(c, ".org") + " " + (c.coin(3, 4) ? number(c, value(c, 3), 3) : ref::Render(c, *sized_expr(c, 3), 0));
    case 7: return mixcase(c, ".equ") + " " + ref::Render(c, *sized_expr(c, c.range(0, 3)), 0);
    case 8: return mixcase(c, ".module") + " " + (c.coin(3, 4) ? name(c) : ref::Render(c, *sized_expr(c, 2, 1), 0));
    default: return mixcase(c, ".halt");
  }
}
inline std::string line(pbt::Case& c) {
  std::string s;
  bool sep = true;  // at the start of a statement
  for (int n = c.weighted({0, 8, 3, 1, 1}); n > 0; --n) {
    if (!sep) { s += blank(c, false) + ":" + blank(c, false); if (c.coin(1, 12)) s += " : "; }
    s += blank(c, false);
    while (c.coin(1, 3)) {
      if (c.coin(1, 4)) s += mixcase(c, "export") + " ";
      s += name(c);
      s += c.coin(3, 4) ? blank(c, false) + ":" + blank(c, false) : blank(c, true);
    }
    switch (c.weighted({8, 4, 2, 1})) {
      case 0: s += instruction_text(c); sep = false; break;
      case 1: s += directive_text(c); sep = false; break;
      case 2: s += blank(c, false) + c.pick({"{", "}"}) + blank(c, false); sep = true; break;
      default: sep = false; break;
    }
  }
  if (c.coin(1, 6)) s += blank(c, false) + ";" + word(c);
  return s;
}
// One random edit of a line.
inline void damage(pbt::Case& c, std::string* s) {
  static const char* bits[] = {"+", "-", "++", "---", "::", ":", "(", ")", "[", "]", ",", "#", "*", "@", "{", "}", "<", " a ", " x ", ",s", ",y", " export ", " noreturn ", " yields ", ".b", ".w", " foo ", " lda ", " jsr ", " $12 ", " 5 ", ".db ", ".entry ", ".org ", " m8 ", ";", " "};
  size_t at = c.draw(s->size() + 1);
  switch (c.weighted({3, 2, 1})) {
    case 0: s->insert(at, c.pick(bits)); break;
    case 1: s->erase(at, c.range(1, 4)); break;
    default: { size_t n = c.range(1, 8); std::string part = s->substr(at, n); s->insert(c.draw(s->size() + 1), part); }
  }
}
}  // namespace gen
#endif
