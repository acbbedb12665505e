#ifndef VSHIM_ABSL_NUMBERS_H_
#define VSHIM_ABSL_NUMBERS_H_
#include <charconv>
#include <string_view>
#include "absl/strings/ascii.h"
namespace absl {
using std::from_chars; using std::from_chars_result; using std::chars_format;
template <typename I> bool vshim_atoi(std::string_view s, I* out, int base) {
  s = StripAsciiWhitespace(s); bool neg = false;
  if (!s.empty() && (s[0] == '+' || s[0] == '-')) { neg = s[0] == '-'; s.remove_prefix(1); }
  if (base == 16 && s.size() > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) s.remove_prefix(2);
  *out = 0; if (s.empty() || !ascii_isalnum(s[0])) return false;
  std::string t = (neg ? "-" : "") + std::string(s);
  auto r = std::from_chars(t.data(), t.data() + t.size(), *out, base);
  return r.ec == std::errc() && r.ptr == t.data() + t.size();
}
template <typename I> [[nodiscard]] bool SimpleAtoi(std::string_view s, I* out) { return vshim_atoi(s, out, 10); }
template <typename I> [[nodiscard]] bool SimpleHexAtoi(std::string_view s, I* out) { return vshim_atoi(s, out, 16); }
}
#endif
