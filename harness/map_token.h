// Repository token -> reference token.
#ifndef VERIF_MAP_TOKEN_H_
#define VERIF_MAP_TOKEN_H_
#include "nsasm/token.h"
#include "nsasm_map.h"
#include "ref_names.h"
#include "ref_token.h"
namespace ref {
inline Tok FromRepo(const nsasm::Token& t) {
  using namespace nsasm;
  if (t.EndOfLine()) return {K_eol, ""};
  if (auto* m = t.Mnemonic()) {
    for (auto& n : kMnemonics) if (n.m == *m) return {K_mnemonic, n.name};
    return {K_mnemonic, "?"};
  }
  if (auto* s = t.Suffix()) return {K_suffix, *s == S_b ? ".b" : *s == S_w ? ".w" : "?"};
  if (auto* d = t.DirectiveName()) {
    for (auto& n : kDirectives) if (n.d == *d) return {K_directive, n.name};
    return {K_directive, "?"};
  }
  if (auto* l = t.Literal()) {
    int w = t.Type() == T_unknown ? 0 : t.Type() == T_byte ? 1 : t.Type() == T_word ? 2 : t.Type() == T_long ? 3 : 9;
    return {K_number, "", *l, w};
  }
  if (auto* s = t.Identifier()) return {K_name, *s};
  auto p = *t.Punctuation();
  switch (p) {
    case P_scope: return {K_punct, "::"};
    case P_plusplus: return {K_punct, "++"};
    case P_plusplusplus: return {K_punct, "+++"};
    case P_minusminus: return {K_punct, "--"};
    case P_minusminusminus: return {K_punct, "---"};
    case P_export: return {K_keyword, "export"};
    case P_noreturn: return {K_keyword, "noreturn"};
    case P_yields: return {K_keyword, "yields"};
    default: break;
  }
  std::string s(1, (char)p);
  if ((p >= 'A' && p <= 'Z')) return {K_register, Lower(s)};
  return {K_punct, s};
}
}  // namespace ref
#endif
