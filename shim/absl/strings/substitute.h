#ifndef VSHIM_ABSL_SUBST_H_
#define VSHIM_ABSL_SUBST_H_
#include <vector>
#include "absl/strings/str_cat.h"
namespace absl { template <typename... A> std::string Substitute(std::string_view f, const A&... a) { std::vector<std::string> v{StrCat(a)...}; std::string r; for (size_t i = 0; i < f.size(); ++i) if (f[i] == '$' && i + 1 < f.size()) { ++i; if (f[i] == '$') r += '$'; else r += v.at(f[i] - '0'); } else r += f[i]; return r; } }
#endif
