// Generators for source text fragments.
#ifndef VERIF_GEN_TEXT_H_
#define VERIF_GEN_TEXT_H_
#include "pbt.h"
#include "ref_token.h"
namespace gen {

inline std::string mixcase(pbt::Case& c, std::string s) {
  switch (c.weighted({3, 1, 1})) {
    case 0: return s;
    case 1: for (char& ch : s) ch = toupper(ch); return s;
    default: for (char& ch : s) if (c.coin()) ch = toupper(ch); return s;
  }
}
inline std::string blank(pbt::Case& c, bool need) {
  static const char* w[] = {" ", "  ", "\t", " \t "};
  if (!need && c.coin(2, 3)) return "";
  return w[c.weighted({6, 1, 1, 1})];
}
inline std::string word(pbt::Case& c) {
  static const char* some[] = {"foo", "bar", "baz", "loop", "_x", "x1", "Main", "label_2", "zz", "aa", "ldaa", "m8x8", "exported", "b", "w", "org", "_", "A1", "yield"};
  if (c.coin(3, 4)) return c.pick(some);
  if (c.coin(1, 60)) {  // long, and different only at the end
    static const std::string s = "a_name_of_which_the_beginning_is_the_same_as_that_of_others_";
    std::string r = s;
    while (r.size() < 250 && c.coin()) r += s;
    return r + c.pick({"", "a", "b", "1", "A"});
  }
  static const std::string first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_", rest = first + "0123456789";
  std::string s(1, first[c.draw(first.size())]);
  for (auto m = c.many(3, 12); m.more();) s += rest[c.draw(rest.size())];
  return s;
}
inline std::string name(pbt::Case& c) {
  std::string s = word(c);
  while (ref::Reserved(s)) s += "_";
  return s;
}
// The spelling of a number; width 0 is decimal.
inline std::string number(pbt::Case& c, uint32_t v, int width) {
  auto zeros = [&] { return std::string(c.coin(1, 80) ? c.range(1, c.pick({5, 40, 300})) : 0, '0'); };
  if (width == 0) return (c.coin(1, 8) ? "0" : "") + zeros() + std::to_string(v);
  bool bin = c.coin(1, 6);
  std::string d;
  int per = bin ? 8 : 2, bits = bin ? 1 : 4;
  int lo = (width - 1) * per + 1, hi = width * per;
  int len = 1;
  while (len < 32 / bits && (v >> (len * bits))) ++len;
  if (len < lo) len = lo;
  if (width == 1 && len == 1 && c.coin(3, 4)) len = per;
  if (len < hi && c.coin(3, 4)) len = hi;
  if (width == 3) d = zeros();
  for (int i = len - 1; i >= 0; --i) d += "0123456789abcdef"[(v >> (i * bits)) & (bin ? 1 : 15)];
  return bin ? "%" + d : std::string(c.pick({"$", "$", "$", "0x", "0X"})) + mixcase(c, d);
}
inline uint32_t value(pbt::Case& c, int width) {
  uint32_t max = width == 0 ? 0x7fffffff : width == 1 ? 0xff : width == 2 ? 0xffff : 0xffffff;
  switch (c.weighted({3, 3, 2})) {
    case 0: return c.draw(std::min<uint64_t>(max, 300) + 1);
    case 1: return c.draw((uint64_t)max + 1);
    default: {
      int64_t p = (int64_t(1) << c.range(0, 31)) + c.range(0, 2) - 1;
      return p < 0 ? 0 : p > max ? max : p;
    }
  }
}
}  // namespace gen
#endif
