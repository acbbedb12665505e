#ifndef VSHIM_ABSL_STR_CAT_H_
#define VSHIM_ABSL_STR_CAT_H_
#include "absl/types/span.h"
#include <cstdint>
#include <cstdio>
#include <string>
#include <string_view>
#include <type_traits>
#include "absl/strings/string_view.h"
#include "absl/strings/numbers.h"
namespace absl {
enum PadSpec : uint8_t { kNoPad = 1, kZeroPad2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6, kZeroPad7, kZeroPad8, kZeroPad9, kZeroPad10, kZeroPad11, kZeroPad12, kZeroPad13, kZeroPad14, kZeroPad15, kZeroPad16, kSpacePad2 = kZeroPad2 + 64, kSpacePad3, kSpacePad4, kSpacePad5, kSpacePad6, kSpacePad7, kSpacePad8 };
struct Hex { uint64_t v; int w; char f;
  template <typename I> explicit Hex(I i, PadSpec s = kNoPad) : v(static_cast<std::make_unsigned_t<I>>(i)), w(s >= kSpacePad2 ? s - kSpacePad2 + 2 : s), f(s >= kSpacePad2 ? ' ' : '0') {} };
struct Dec { std::string s; template <typename I> explicit Dec(I i, PadSpec p = kNoPad) : s(std::to_string(i)) { size_t w = p >= kSpacePad2 ? p - kSpacePad2 + 2 : p; while (s.size() < w) s.insert(s.begin(), p >= kSpacePad2 ? ' ' : '0'); } };
class AlphaNum {
 public:
  template <typename I, typename = std::enable_if_t<std::is_integral_v<I> && !std::is_same_v<I, char> >>
  AlphaNum(I v) : s_(std::to_string(v)) {}
  template <typename E, typename = std::enable_if_t<std::is_enum_v<E>>, typename = void, typename = void>
  AlphaNum(E v) : s_(std::to_string(static_cast<std::underlying_type_t<E>>(v))) {}
  AlphaNum(bool v) : s_(v ? "1" : "0") {}
  AlphaNum(double d) { char b[64]; snprintf(b, sizeof b, "%g", d); s_ = b; }
  AlphaNum(std::string_view v) : s_(v) {}
  AlphaNum(const std::string& v) : s_(v) {}
  AlphaNum(const char* v) : s_(v ? v : "") {}
  AlphaNum(Hex h) { char b[32]; snprintf(b, sizeof b, "%llx", (unsigned long long)h.v); s_ = b; while ((int)s_.size() < h.w) s_.insert(s_.begin(), h.f); }
  AlphaNum(Dec d) : s_(d.s) {}
  AlphaNum(char c) = delete;
  std::string_view Piece() const { return s_; }
 private: std::string s_;
};
template <typename... A> std::string vshim_cat(const A&... a) { std::string r; (r.append(a.Piece()), ...); return r; }
template <typename... A> [[nodiscard]] std::string StrCat(const A&... a) { return vshim_cat(AlphaNum(a)...); }
template <typename... A> void StrAppend(std::string* d, const A&... a) { d->append(vshim_cat(AlphaNum(a)...)); }
}
#endif
