#ifndef VSHIM_ABSL_STRIP_H_
#define VSHIM_ABSL_STRIP_H_
#include "absl/strings/match.h"
namespace absl {
inline bool ConsumePrefix(std::string_view* s, std::string_view p) { if (!StartsWith(*s, p)) return false; s->remove_prefix(p.size()); return true; }
inline bool ConsumeSuffix(std::string_view* s, std::string_view p) { if (!EndsWith(*s, p)) return false; s->remove_suffix(p.size()); return true; }
inline std::string_view StripPrefix(std::string_view s, std::string_view p) { ConsumePrefix(&s, p); return s; }
inline std::string_view StripSuffix(std::string_view s, std::string_view p) { ConsumeSuffix(&s, p); return s; }
}
#endif
