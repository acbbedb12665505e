#ifndef VSHIM_ABSL_ASCII_H_
#define VSHIM_ABSL_ASCII_H_
#include <string>
#include <string_view>
#include "absl/base/attributes.h"
#include "absl/strings/string_view.h"
namespace absl {
inline bool ascii_isupper(unsigned char c) { return c >= 'A' && c <= 'Z'; }
inline bool ascii_islower(unsigned char c) { return c >= 'a' && c <= 'z'; }
inline bool ascii_isalpha(unsigned char c) { return ascii_isupper(c) || ascii_islower(c); }
inline bool ascii_isdigit(unsigned char c) { return c >= '0' && c <= '9'; }
inline bool ascii_isalnum(unsigned char c) { return ascii_isalpha(c) || ascii_isdigit(c); }
inline bool ascii_isspace(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline bool ascii_isxdigit(unsigned char c) { return ascii_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
inline bool ascii_isblank(unsigned char c) { return c == ' ' || c == '\t'; }
inline bool ascii_isprint(unsigned char c) { return c >= 32 && c < 127; }
inline bool ascii_isgraph(unsigned char c) { return c > 32 && c < 127; }
inline bool ascii_iscntrl(unsigned char c) { return c < 32 || c == 127; }
inline bool ascii_isascii(unsigned char c) { return c < 128; }
inline bool ascii_ispunct(unsigned char c) { return ascii_isgraph(c) && !ascii_isalnum(c); }
inline char ascii_toupper(unsigned char c) { return ascii_islower(c) ? c - 32 : c; }
inline char ascii_tolower(unsigned char c) { return ascii_isupper(c) ? c + 32 : c; }
inline void AsciiStrToLower(std::string* s) { for (char& c : *s) c = ascii_tolower(c); }
inline void AsciiStrToUpper(std::string* s) { for (char& c : *s) c = ascii_toupper(c); }
inline std::string AsciiStrToLower(std::string_view v) { std::string s(v); AsciiStrToLower(&s); return s; }
inline std::string AsciiStrToUpper(std::string_view v) { std::string s(v); AsciiStrToUpper(&s); return s; }
inline std::string_view StripLeadingAsciiWhitespace(std::string_view v) { while (!v.empty() && ascii_isspace(v.front())) v.remove_prefix(1); return v; }
inline std::string_view StripTrailingAsciiWhitespace(std::string_view v) { while (!v.empty() && ascii_isspace(v.back())) v.remove_suffix(1); return v; }
inline std::string_view StripAsciiWhitespace(std::string_view v) { return StripTrailingAsciiWhitespace(StripLeadingAsciiWhitespace(v)); }
inline void StripLeadingAsciiWhitespace(std::string* s) { *s = std::string(StripLeadingAsciiWhitespace(std::string_view(*s))); }
inline void StripTrailingAsciiWhitespace(std::string* s) { *s = std::string(StripTrailingAsciiWhitespace(std::string_view(*s))); }
inline void StripAsciiWhitespace(std::string* s) { *s = std::string(StripAsciiWhitespace(std::string_view(*s))); }
inline void RemoveExtraAsciiWhitespace(std::string* s) { std::string r; bool sp = false; for (char c : StripAsciiWhitespace(std::string_view(*s))) { if (ascii_isspace(c)) { if (!sp) r += c; sp = true; } else { r += c; sp = false; } } *s = r; }
}
#endif
