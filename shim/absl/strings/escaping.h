#ifndef VSHIM_ABSL_ESC_H_
#define VSHIM_ABSL_ESC_H_
#include <cstdio>
#include <string>
#include <string_view>
namespace absl {
inline std::string CEscape(std::string_view s) { std::string r; for (unsigned char c : s) { if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t"; else if (c == '"' || c == '\'' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\%03o", c); r += b; } else r += c; } return r; }
inline std::string CHexEscape(std::string_view s) { std::string r; for (unsigned char c : s) { if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; } else r += c; } return r; }
inline std::string BytesToHexString(std::string_view s) { std::string r; for (unsigned char c : s) { char b[4]; snprintf(b, 4, "%02x", c); r += b; } return r; }
}
#endif
