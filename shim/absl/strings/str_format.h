#ifndef VSHIM_ABSL_STR_FORMAT_H_
#define VSHIM_ABSL_STR_FORMAT_H_
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <ostream>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include "absl/base/attributes.h"
#include "absl/strings/string_view.h"
namespace absl {
class UntypedFormatSpec {
 public:
  UntypedFormatSpec(const char* s) : s_(s) {}
  UntypedFormatSpec(std::string_view s) : s_(s) {}
  UntypedFormatSpec(const std::string& s) : s_(s) {}
  std::string_view str() const { return s_; }
 private: std::string_view s_;
};
// Real Abseil deduces Args only from the arguments, never from the format.
template <typename... Args> using FormatSpec = UntypedFormatSpec;
template <typename... Args> using ParsedFormat = UntypedFormatSpec;
class vshim_fmt_arg {
 public:
  template <typename T> vshim_fmt_arg(const T& v) {
    if constexpr (std::is_same_v<T, bool>) { k = 'u'; u = v; width = 8; }
    else if constexpr (std::is_enum_v<T>) { set_int(static_cast<std::underlying_type_t<T>>(v)); }
    else if constexpr (std::is_integral_v<T>) { set_int(v); }
    else if constexpr (std::is_floating_point_v<T>) { k = 'f'; d = v; }
    else if constexpr (std::is_convertible_v<const T&, std::string_view>) { k = 's'; s = std::string(std::string_view(v)); }
    else if constexpr (std::is_pointer_v<T>) { k = 'p'; p = (const void*)v; }
    else static_assert(sizeof(T) == 0, "unsupported StrFormat argument");
  }
  char k; int64_t i = 0; uint64_t u = 0; double d = 0; const void* p = nullptr; std::string s; int width = 0;
 private:
  template <typename I> void set_int(I v) { width = sizeof(I) * 8; if (std::is_signed_v<I>) { k = 'i'; i = v; u = static_cast<std::make_unsigned_t<I>>(v); } else { k = 'u'; u = v; i = (int64_t)v; } }
};
[[noreturn]] inline void vshim_bad_format(std::string_view f) { fprintf(stderr, "vshim: bad format \"%.*s\"\n", (int)f.size(), f.data()); abort(); }
inline std::string vshim_format(std::string_view f, const std::vector<vshim_fmt_arg>& a) {
  std::string out; size_t n = 0;
  auto next = [&]() -> const vshim_fmt_arg& { if (n >= a.size()) vshim_bad_format(f); return a[n++]; };
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] != '%') { out += f[i]; continue; }
    if (++i >= f.size()) vshim_bad_format(f);
    if (f[i] == '%') { out += '%'; continue; }
    std::string flags = "%";
    while (i < f.size() && std::string_view("-+ #0").find(f[i]) != std::string_view::npos) flags += f[i++];
    if (i < f.size() && f[i] == '*') { flags += std::to_string(next().i); ++i; }
    while (i < f.size() && isdigit((unsigned char)f[i])) flags += f[i++];
    if (i < f.size() && f[i] == '.') { flags += f[i++]; if (i < f.size() && f[i] == '*') { flags += std::to_string(next().i); ++i; } while (i < f.size() && isdigit((unsigned char)f[i])) flags += f[i++]; }
    while (i < f.size() && std::string_view("hljztqL").find(f[i]) != std::string_view::npos) ++i;
    if (i >= f.size()) vshim_bad_format(f);
    char c = f[i]; const vshim_fmt_arg& v = next(); std::string buf(64, 0);
    auto emit = [&](auto x, const char* conv) { std::string fm = flags + conv; int len = snprintf(nullptr, 0, fm.c_str(), x); buf.resize(len + 1); snprintf(&buf[0], len + 1, fm.c_str(), x); buf.resize(len); out += buf; };
    switch (c) {
      case 'd': case 'i': if (v.k == 'i') emit((long long)v.i, "lld"); else if (v.k == 'u') emit((unsigned long long)v.u, "llu"); else vshim_bad_format(f); break;
      case 'u': case 'v': if (c == 'v' && v.k == 's') { emit(v.s.c_str(), "s"); break; } if (c == 'v' && v.k == 'i') { emit((long long)v.i, "lld"); break; } if (v.k != 'i' && v.k != 'u') vshim_bad_format(f); emit((unsigned long long)v.u, "llu"); break;
      case 'x': case 'X': case 'o': if (v.k != 'i' && v.k != 'u') vshim_bad_format(f); emit((unsigned long long)v.u, c == 'x' ? "llx" : c == 'X' ? "llX" : "llo"); break;
      case 'c': if (v.k != 'i' && v.k != 'u') vshim_bad_format(f); if (flags == "%") out += (char)v.i; else emit((int)v.i, "c"); break;
      case 's': if (v.k != 's') vshim_bad_format(f); if (flags == "%") out += v.s; else emit(v.s.c_str(), "s"); break;
      case 'p': emit(v.p, "p"); break;
      case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': case 'a': case 'A': if (v.k != 'f') vshim_bad_format(f); { char cv[2] = {c, 0}; emit(v.d, cv); } break;
      default: vshim_bad_format(f);
    }
  }
  if (n != a.size()) vshim_bad_format(f);
  return out;
}
template <typename... A> [[nodiscard]] std::string StrFormat(const FormatSpec<A...>& f, const A&... a) { return vshim_format(f.str(), {vshim_fmt_arg(a)...}); }
template <typename... A> std::string& StrAppendFormat(std::string* o, const FormatSpec<A...>& f, const A&... a) { return o->append(vshim_format(f.str(), {vshim_fmt_arg(a)...})); }
template <typename... A> int FPrintF(std::FILE* o, const FormatSpec<A...>& f, const A&... a) { std::string s = vshim_format(f.str(), {vshim_fmt_arg(a)...}); return (int)fwrite(s.data(), 1, s.size(), o); }
template <typename... A> int PrintF(const FormatSpec<A...>& f, const A&... a) { return FPrintF(stdout, f, a...); }
template <typename... A> int SNPrintF(char* o, size_t n, const FormatSpec<A...>& f, const A&... a) { std::string s = vshim_format(f.str(), {vshim_fmt_arg(a)...}); return snprintf(o, n, "%s", s.c_str()); }
class vshim_stream_fmt { public: std::string s; friend std::ostream& operator<<(std::ostream& o, const vshim_stream_fmt& f) { return o << f.s; } };
template <typename... A> vshim_stream_fmt StreamFormat(const FormatSpec<A...>& f, const A&... a) { return {vshim_format(f.str(), {vshim_fmt_arg(a)...})}; }
}
#endif
