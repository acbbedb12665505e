// Independent parser of source lines: tokens (ref_token.h) -> labels and statements.
// An operand is first cut out as a token slice and then matched against the
// operand shapes; nothing here backtracks or shares structure with the repository.
#ifndef VERIF_REF_PARSE_H_
#define VERIF_REF_PARSE_H_
#include "gen_expr.h"
#include "ref_token.h"

namespace ref {

enum Conv { C_default, C_yields, C_noreturn };
struct Mode3 { int e, m, x; };  // 0 off, 1 on, -1 unknown
// unk, emu, native, or m8/m16 and/or x8/x16.
inline bool ModeByName(const std::string& name, Mode3* out) {
  static const std::map<std::string, Mode3> t = [] {
    std::map<std::string, Mode3> r = {{"unk", {-1, -1, -1}}, {"emu", {1, 1, 1}}, {"native", {0, -1, -1}}};
    for (int m : {-1, 0, 1})
      for (int x : {-1, 0, 1})
        if (m >= 0 || x >= 0) r[std::string(m < 0 ? "" : m ? "m8" : "m16") + (x < 0 ? "" : x ? "x8" : "x16")] = {0, m, x};
    return r;
  }();
  auto it = t.find(Lower(name));
  if (it == t.end()) return false;
  *out = it->second;
  return true;
}

struct Stmt {
  bool directive = false;
  std::string name;    // lower case
  std::string suffix;  // "", ".b", ".w"
  Form form = F_none;
  std::string mode;    // addressing mode code
  EP a, b;
  std::vector<EP> list;
  Mode3 flags = {-1, -1, -1};
  std::string flags_name, conv_name;
  Conv conv = C_default;
  Mode3 conv_flags = {-1, -1, -1};
};
struct Item { bool label = false, exported = false; std::string name; Stmt st; };

// Expression on the whole of t[i, j): shunting-yard.
inline EP ParseExpr(const std::vector<Tok>& t, size_t i, size_t j) {
  std::vector<EP> out;
  std::vector<char> ops;
  auto strength = [](char o) { return o == '+' || o == '-' ? 1 : o == '*' || o == '/' ? 2 : o == '(' ? 0 : 3; };
  auto apply = [&] {
    char o = ops.back();
    ops.pop_back();
    if (strength(o) == 3) { out.back() = Un(o, out.back()); return; }
    EP b = out.back();
    out.pop_back();
    out.back() = Bin(o, out.back(), b);
  };
  bool want = true;
  auto name_at = [&](size_t k) { return k < j && t[k].kind == K_name; };
  auto scope_at = [&](size_t k) { return k < j && t[k].kind == K_punct && t[k].text == "::"; };
  while (i < j) {
    const Tok& k = t[i];
    if (want) {
      if (k.kind == K_number) { out.push_back(Lit(k.value, k.width)); want = false; ++i; continue; }
      if (k.kind == K_punct && (k.text == "-" || k.text == "<" || k.text == ">" || k.text == "^")) { ops.push_back(k.text == "-" ? 'n' : k.text[0]); ++i; continue; }
      if (k.kind == K_punct && k.text == "(") { ops.push_back('('); ++i; continue; }
      bool at = k.kind == K_punct && k.text == "@";
      if (at) ++i;
      if (scope_at(i) && name_at(i + 1)) { out.push_back(QName("", t[i + 1].text, at)); i += 2; }
      else if (name_at(i) && scope_at(i + 1)) {
        if (!name_at(i + 2)) return nullptr;
        out.push_back(QName(t[i].text, t[i + 2].text, at));
        i += 3;
      } else if (name_at(i)) { out.push_back(Name(t[i].text, at)); ++i; }
      else return nullptr;
      want = false;
      continue;
    }
    if (k.kind != K_punct) return nullptr;
    if (k.text == ")") {
      while (!ops.empty() && ops.back() != '(') apply();
      if (ops.empty()) return nullptr;
      ops.pop_back();
      ++i;
      continue;
    }
    if (k.text != "+" && k.text != "-" && k.text != "*" && k.text != "/") return nullptr;
    char o = k.text[0];
    while (!ops.empty() && strength(ops.back()) >= strength(o)) apply();
    ops.push_back(o);
    want = true;
    ++i;
  }
  if (want) return nullptr;
  while (!ops.empty()) {
    if (ops.back() == '(') return nullptr;
    apply();
  }
  return out[0];
}

inline Operand Describe(const Expr& e) {
  Val v = Eval(e, [](const Expr&) { return Val{false, 0}; });
  return {Type(e).width, v.ok, v.v, !e.op && e.is_name && !e.qualified};
}

// Match the operand tokens t[i, j) of an instruction.
inline bool MatchOperand(const std::vector<Tok>& t, size_t i, size_t j, Stmt* s) {
  auto is = [&](size_t k, const char* p) { return k < j && t[k].kind == K_punct && t[k].text == p; };
  auto reg = [&](size_t k, const char* r) { return k < j && t[k].kind == K_register && t[k].text == r; };
  if (i == j) { s->form = F_none; return true; }
  if (reg(i, "a")) { s->form = F_A; return j == i + 1; }
  // matching close of a bracket at i, and commas outside parentheses
  auto close = [&](size_t k) {
    int d = 0;
    for (; k < j; ++k) {
      if (is(k, "(")) ++d;
      if (is(k, ")") && --d == 0) return k;
    }
    return j;
  };
  auto comma = [&](size_t k) {
    int d = 0;
    for (; k < j; ++k) {
      if (is(k, "(")) ++d;
      if (is(k, ")")) --d;
      if (is(k, ",") && d == 0) return k;
    }
    return j;
  };
  auto set = [&](Form f, size_t a, size_t b) { s->form = f; s->a = ParseExpr(t, a, b); return s->a != nullptr; };
  if (is(i, "#")) {
    size_t k = comma(i + 1);
    if (!set(k == j ? F_imm : F_mov, i + 1, k)) return false;
    if (k == j) return true;
    if (!is(k + 1, "#")) return false;
    s->b = ParseExpr(t, k + 2, j);
    return s->b != nullptr;
  }
  if (is(i, "[")) {
    for (size_t k = i + 1; k < j; ++k)
      if (is(k, "]")) {
        if (k + 1 == j) return set(F_lng, i + 1, k);
        return j == k + 3 && is(k + 1, ",") && reg(k + 2, "y") && set(F_lngy, i + 1, k);
      }
    return false;
  }
  if (is(i, "(")) {
    size_t k = close(i);
    if (k == j) return false;
    if (k > i + 2 && is(k - 2, ",")) {  // a comma inside
      if (reg(k - 1, "x")) return k + 1 == j && set(F_indx, i + 1, k - 2);
      if (reg(k - 1, "s")) return k + 3 == j && is(k + 1, ",") && reg(k + 2, "y") && set(F_stky, i + 1, k - 2);
      return false;
    }
    if (k + 1 == j) return set(F_ind, i + 1, k);
    if (is(k + 1, ",")) return k + 3 == j && reg(k + 2, "y") && set(F_indy, i + 1, k);
  }
  size_t k = comma(i);
  if (k == j) return set(F_dir, i, j);
  if (k + 2 != j) return false;
  return set(reg(k + 1, "x") ? F_dirx : reg(k + 1, "y") ? F_diry : F_stk, i, k) && (reg(k + 1, "x") || reg(k + 1, "y") || reg(k + 1, "s"));
}

inline bool ParseLine(const std::vector<Tok>& t, std::vector<Item>* out) {
  out->clear();
  size_t i = 0;
  auto punct = [&](size_t k, const char* p) { return t[k].kind == K_punct && t[k].text == p; };
  auto kw = [&](size_t k, const char* p) { return t[k].kind == K_keyword && t[k].text == p; };
  auto end = [&](size_t k) { return t[k].kind == K_eol || punct(k, ":"); };
  auto conv = [&](Stmt* s) {
    if (kw(i, "noreturn")) { s->conv = C_noreturn; ++i; }
    else if (kw(i, "yields")) {
      ++i;
      if (t[i].kind != K_name || !ModeByName(t[i].text, &s->conv_flags)) return false;
      s->conv = C_yields;
      s->conv_name = Lower(t[i].text);
      ++i;
    }
    return true;
  };
  while (true) {
    if (t[i].kind == K_eol) return true;
    if (punct(i, ":")) { ++i; continue; }  // nothing between two colons
    bool exported = kw(i, "export");
    if (exported) { ++i; if (t[i].kind != K_name) return false; }
    if (t[i].kind == K_name) {
      Item it;
      it.label = true; it.exported = exported; it.name = t[i].text;
      out->push_back(it);
      ++i;
      if (punct(i, ":")) { ++i; continue; }
      if (t[i].kind == K_eol) return true;
    }
    Item it;
    Stmt& s = it.st;
    if (punct(i, "{") || punct(i, "}")) {
      s.directive = true;
      s.name = punct(i, "{") ? ".begin" : ".end";
      ++i;
      out->push_back(it);
      continue;
    }
    s.name = t[i].text;
    if (t[i].kind == K_directive) {
      s.directive = true;
      ++i;
      size_t j = i;
      while (!end(j)) ++j;
      if (s.name == ".begin" || s.name == ".end" || s.name == ".halt") {
        if (i != j) return false;
      } else if (s.name == ".db" || s.name == ".dw" || s.name == ".dl") {
        for (size_t from = i;; ) {
          size_t k = from;
          while (k < j && !punct(k, ",")) ++k;
          EP e = ParseExpr(t, from, k);
          if (!e) return false;
          s.list.push_back(e);
          if (k == j) break;
          from = k + 1;
        }
        i = j;
      } else if (s.name == ".mode" || s.name == ".entry") {
        if (t[i].kind != K_name || !ModeByName(t[i].text, &s.flags)) return false;
        s.flags_name = Lower(t[i].text);
        ++i;
        if (s.name == ".entry" && !conv(&s)) return false;
        if (i != j) return false;
      } else if (s.name == ".remote") {
        // the last name before the convention (or the end) is the mode
        size_t k = j;
        for (size_t q = i; q < j; ++q)
          if (kw(q, "noreturn") || kw(q, "yields")) { k = q; break; }
        if (k < i + 2 || t[k - 1].kind != K_name || !ModeByName(t[k - 1].text, &s.flags)) return false;
        s.flags_name = Lower(t[k - 1].text);
        s.a = ParseExpr(t, i, k - 1);
        if (!s.a) return false;
        i = k;
        if (!conv(&s) || i != j) return false;
      } else {  // .equ .org .module
        s.a = ParseExpr(t, i, j);
        if (!s.a) return false;
        if (s.name == ".org" && UsesNames(*s.a)) return false;
        if (s.name == ".module" && !(!s.a->op && s.a->is_name && !s.a->qualified)) return false;
        i = j;
      }
    } else if (t[i].kind == K_mnemonic) {
      ++i;
      if (t[i].kind == K_suffix) s.suffix = t[i++].text;
      size_t j = i;
      while (!end(j) && !kw(j, "yields") && !kw(j, "noreturn")) ++j;
      if (!MatchOperand(t, i, j, &s)) return false;
      s.mode = s.form == F_none || s.form == F_A ? Deduce(s.name, s.form, {}) : Deduce(s.name, s.form, Describe(*s.a), s.b ? Describe(*s.b) : Operand{});
      if (s.mode.empty()) return false;
      if (!s.suffix.empty() && !WidthM().count(s.name) && !WidthX().count(s.name)) return false;
      i = j;
      if (!conv(&s) || !end(i)) return false;
      if (s.conv != C_default && s.name != "jsr" && s.name != "jsl") return false;
    } else return false;
    out->push_back(it);
    if (t[i].kind == K_eol) return true;
    ++i;  // the colon
  }
}

inline bool ParseText(const std::string& line, std::vector<Item>* out) {
  std::vector<Tok> t;
  return Lex(line, &t) && ParseLine(t, out);
}
}  // namespace ref
#endif
