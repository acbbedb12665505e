// Independent description of the lexical grammar: text of a line -> tokens.
#ifndef VERIF_REF_TOKEN_H_
#define VERIF_REF_TOKEN_H_
#include <string>
#include <vector>
#include "ref65816.h"

namespace ref {

enum TokKind { K_punct, K_number, K_name, K_mnemonic, K_suffix, K_directive, K_register, K_keyword, K_eol };
struct Tok {
  TokKind kind;
  std::string text;         // punctuation / name as written / lower-cased reserved word
  long long value = 0;      // numbers
  int width = 0;            // numbers: 0 none, 1, 2, 3 bytes
  bool operator==(const Tok& o) const { return kind == o.kind && text == o.text && value == o.value && width == o.width; }
};

inline std::string Lower(std::string s) {
  for (char& c : s) if (c >= 'A' && c <= 'Z') c += 32;
  return s;
}
inline bool IsName(const std::string& low) {
  static const std::set<std::string> mn(AllNames().begin(), AllNames().end());
  return mn.count(low) > 0;
}
inline const std::set<std::string>& DirectiveNames() {
  static const std::set<std::string> s = {".begin", ".db", ".dl", ".dw", ".end", ".entry", ".equ", ".halt", ".mode", ".module", ".org", ".remote"};
  return s;
}
// Classify an identifier-shaped word.
inline Tok Word(const std::string& w) {
  std::string low = Lower(w);
  if (IsName(low)) return {K_mnemonic, low};
  if (low == "a" || low == "s" || low == "x" || low == "y") return {K_register, low};
  if (low == "export" || low == "noreturn" || low == "yields") return {K_keyword, low};
  return {K_name, w};
}
inline bool Reserved(const std::string& w) { return Word(w).kind != K_name; }

// Returns false if the line is not lexically valid.
inline bool Lex(const std::string& line, std::vector<Tok>* out) {
  static const std::string ws(" \t\n\v\f\r"), digits("0123456789"), hex("0123456789abcdefABCDEF"),
      idc("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789");
  static const std::vector<std::string> punct = {"+++", "---", "::", "++", "--", "(", ")", "[", "]", ",", ":", "#", "+", "-", "*", "/", "@", "{", "}", ">", "<", "^"};
  size_t i = 0, n = line.size();
  auto span = [&](size_t from, const std::string& set) {
    size_t e = line.find_first_not_of(set, from);
    return line.substr(from, (e == line.npos ? n : e) - from);
  };
  auto in = [&](size_t at, const std::string& set) { return at < n && line[at] && set.find(line[at]) != set.npos; };
  out->clear();
  for (;;) {
    while (in(i, ws)) ++i;
    if (i >= n || line[i] == ';') { out->push_back({K_eol, ""}); return true; }
    bool done = false;
    for (auto& p : punct)
      if (line.compare(i, p.size(), p) == 0) { out->push_back({K_punct, p}); i += p.size(); done = true; break; }
    if (done) continue;
    int base = 0;
    size_t start = i;
    if (line[i] == '$' && in(i + 1, hex)) base = 16, start = i + 1;
    else if (line[i] == '0' && i + 1 < n && (line[i + 1] == 'x' || line[i + 1] == 'X') && in(i + 2, hex)) base = 16, start = i + 2;
    else if (line[i] == '%' && in(i + 1, "01")) base = 2, start = i + 1;
    else if (in(i, digits)) base = 10;
    if (base) {
      std::string d = span(start, base == 16 ? hex : base == 2 ? "01" : digits);
      unsigned long long v = 0, limit = base == 10 ? 0x7fffffff : 0xffffff;
      for (char ch : d) {
        v = v * base + (ch <= '9' ? ch - '0' : (ch | 32) - 'a' + 10);
        if (v > limit) return false;   // does not fit: must not be silently cut off
      }
      int per = base == 16 ? 2 : 8;
      int width = base == 10 ? 0 : (int)d.size() <= per ? 1 : (int)d.size() <= 2 * per ? 2 : 3;
      out->push_back({K_number, "", (long long)v, width});
      i = start + d.size();
      continue;
    }
    if (line[i] == '.') {
      std::string w = Lower("." + span(i + 1, idc));
      i += w.size();
      if (DirectiveNames().count(w)) out->push_back({K_directive, w});
      else if (w == ".b" || w == ".w") out->push_back({K_suffix, w});
      else return false;
      continue;
    }
    if (in(i, idc)) {
      std::string w = span(i, idc);
      out->push_back(Word(w));
      i += w.size();
      continue;
    }
    return false;
  }
}

inline std::string Show(const Tok& t) {
  static const char* k[] = {"punct", "number", "name", "mnemonic", "suffix", "directive", "register", "keyword", "eol"};
  return std::string(k[t.kind]) + "(" + (t.kind == K_number ? std::to_string(t.value) + "/" + std::to_string(t.width) : t.text) + ")";
}
}  // namespace ref
#endif
