#ifndef VSHIM_ABSL_SV_H_
#define VSHIM_ABSL_SV_H_
#include "absl/types/span.h"
#include <string>
#include <string_view>
namespace absl { using std::string_view; inline string_view NullSafeStringView(const char* p) { return p ? string_view(p) : string_view(); } inline string_view ClippedSubstr(string_view s, size_t pos, size_t n = string_view::npos) { return s.substr(std::min(pos, s.size()), n); } }
#endif
