// C19: the lexical grammar.
#include "gen_text.h"
#include "map_token.h"

using namespace nsasm;
using pbt::Case;
using pbt::fmt;

static std::string join(const std::vector<ref::Tok>& v) {
  std::string s;
  for (auto& t : v) s += ref::Show(t) + " ";
  return s;
}

static std::string piece(Case& c) {
  static const char* punct[] = {"+", "-", "++", "--", "+++", "---", "::", ":", "(", ")", "[", "]", ",", "#", "*", "/", "@", "{", "}", "<", ">", "^"};
  static const char* odd[] = {"$", "%", "0x", "0X", "$g", "%2", "0xg", ".", ".foo", ".bb", ".db1", "!", "=", "&", "|", "~", "\"", "'", "\\", "?", "`", ".8", "$$", "%%1"};
  switch (c.weighted({6, 4, 4, 3, 2, 2, 1, 1, 1, 1})) {
    case 0: return c.pick(punct);
    case 1: { int w = c.range(0, 3); return gen::number(c, gen::value(c, w), w); }
    case 2: return gen::word(c);
    case 3: return gen::mixcase(c, c.pick(ref::AllNames()));
    case 4: return gen::mixcase(c, c.pick(std::vector<std::string>(ref::DirectiveNames().begin(), ref::DirectiveNames().end())));
    case 5: return gen::mixcase(c, c.pick({"a", "s", "x", "y", "export", "noreturn", "yields", ".b", ".w"}));
    case 6: return c.pick(odd);
    case 7: return "; " + gen::word(c);
    case 8: {  // a long run of digits
      std::string s = c.pick({"", "$", "%", "0x"});
      bool bin = s == "%", dec = s.empty();
      if (c.coin(1, 4)) s += std::string(c.range(1, 60), '0');
      for (int n = c.range(1, 36); n > 0; --n) s += bin ? "01"[c.draw(2)] : dec ? "0123456789"[c.draw(10)] : "0123456789abcdefABCDEF"[c.draw(22)];
      return s;
    }
    default: return std::string(1, (char)c.draw(256));
  }
}

// Comparing with a value, both ways round.
template <typename V>
static void with_value(Case& c, const Token& t, const V& v, bool same, const ref::Tok& a, const ref::Tok& b) {
  bool got[] = {t == v, v == t, !(t != v), !(v != t)};
  for (int i = 0; i < 4; ++i) c.check_f(got[i] == same, [&] { return fmt("comparison %d of ", i) + ref::Show(a) + " with the value of " + ref::Show(b) + fmt(" is %d", got[i]); });
}
static void compare(Case& c, const std::vector<Token>& v, const std::vector<ref::Tok>& w) {
  for (size_t i = 0; i < v.size(); ++i)
    for (size_t j : {i, (size_t)c.draw(v.size()), (size_t)c.draw(v.size())}) {
      const Token &t = v[i], &u = v[j];
      bool same = w[i].kind == w[j].kind && w[i].text == w[j].text && w[i].value == w[j].value;  // (whatever the width)
      c.check_f((t == u) == same && (t != u) == !same, [&] { return "comparison of " + ref::Show(w[i]) + " with " + ref::Show(w[j]); });
      if (u.Identifier()) with_value(c, t, *u.Identifier(), same, w[i], w[j]);
      if (u.Literal()) with_value(c, t, *u.Literal(), same, w[i], w[j]);
      if (u.Mnemonic()) with_value(c, t, *u.Mnemonic(), same, w[i], w[j]);
      if (u.Suffix()) with_value(c, t, *u.Suffix(), same, w[i], w[j]);
      if (u.DirectiveName()) with_value(c, t, *u.DirectiveName(), same, w[i], w[j]);
      if (u.Punctuation()) with_value(c, t, *u.Punctuation(), same, w[i], w[j]);
      if (u.Punctuation() && *u.Punctuation() < 128) with_value(c, t, (char)*u.Punctuation(), same, w[i], w[j]);
    }
}

static void tokens(Case& c) {
  std::string text;
  int pieces = 0;
  for (auto m = c.many(10, 40); m.more();) {
    text += piece(c);
    text += gen::blank(c, c.coin(1, 2));
    ++pieces;
  }
  if (c.coin(1, 20)) text.insert(c.draw(text.size() + 1), 1, c.pick({'\n', '\v', '\f', '\r', '\0'}));
  c.note(fmt("%d bytes: ", (int)text.size()) + text);
  Location loc("some.asm", 17);
  std::vector<ref::Tok> want, got;
  bool ok = ref::Lex(text, &want);
  auto r = Tokenize(text, loc);
  c.nontrivial(ok ? want.size() >= 3 : pieces >= 2);
  c.label(ok ? "accepted" : "rejected");
  if (r.ok()) for (auto& t : *r) got.push_back(ref::FromRepo(t));
  c.check_f(r.ok() == ok, [&] { return r.ok() ? "accepted, but is not lexically valid: " + join(got) : "rejected: " + r.error().ToString(); });
  if (!ok) {
    c.check(r.error().ToString().find("some.asm:17") != std::string::npos, "the error does not say where: " + r.error().ToString());
    return;
  }
  c.check_f(got == want, [&] { return "tokens " + join(got) + " want " + join(want); });
  for (auto& t : *r) c.check(t.Location().ToString() == loc.ToString(), "a token does not carry its location");
  if (c.coin(1, 4)) compare(c, *r, want);
  // Blanks around tokens and comments after them do not matter.
  std::string again;
  if (text.find(';') == text.npos) {
    again = gen::blank(c, true) + text + gen::blank(c, true) + "; " + gen::word(c);
    auto r2 = Tokenize(again, loc);
    c.check(r2.ok() && r2->size() == r->size(), "a comment changed the tokens");
    for (size_t i = 0; i < r->size(); ++i) c.check((*r)[i] == (*r2)[i], "a comment changed a token");
  }
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C19";
  cfg.rule = "lines built from every token kind, malformed fragments, arbitrary bytes and blanks; non-trivial: at least two pieces, or an accepted line with at least two tokens";
  cfg.tests = {{"tokens", tokens}};
  cfg.quick_cases = 250000;
  cfg.thorough_cases = 5000000;
  return pbt::main_(cfg, argc, argv);
}
