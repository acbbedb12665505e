#ifndef VSHIM_ABSL_MATCH_H_
#define VSHIM_ABSL_MATCH_H_
#include "absl/strings/ascii.h"
namespace absl {
inline bool StrContains(std::string_view h, std::string_view n) { return h.find(n) != h.npos; }
inline bool StrContains(std::string_view h, char n) { return h.find(n) != h.npos; }
inline bool StartsWith(std::string_view t, std::string_view p) { return t.substr(0, p.size()) == p; }
inline bool EndsWith(std::string_view t, std::string_view s) { return t.size() >= s.size() && t.substr(t.size() - s.size()) == s; }
inline bool EqualsIgnoreCase(std::string_view a, std::string_view b) { return AsciiStrToLower(a) == AsciiStrToLower(b); }
inline bool StartsWithIgnoreCase(std::string_view t, std::string_view p) { return t.size() >= p.size() && EqualsIgnoreCase(t.substr(0, p.size()), p); }
inline bool EndsWithIgnoreCase(std::string_view t, std::string_view s) { return t.size() >= s.size() && EqualsIgnoreCase(t.substr(t.size() - s.size()), s); }
}
#endif
