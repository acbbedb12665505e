#ifndef VSHIM_ABSL_STR_REPLACE_H_
#define VSHIM_ABSL_STR_REPLACE_H_
#include <initializer_list>
#include <string>
#include <string_view>
#include <utility>
namespace absl {
inline std::string StrReplaceAll(std::string_view s, std::initializer_list<std::pair<std::string_view, std::string_view>> rs) {
  std::string r; size_t i = 0;
  while (i < s.size()) { const std::pair<std::string_view, std::string_view>* best = nullptr; for (auto& p : rs) if (!p.first.empty() && s.substr(i, p.first.size()) == p.first && (!best || p.first.size() > best->first.size())) best = &p; if (best) { r.append(best->second); i += best->first.size(); } else r += s[i++]; }
  return r; }
}
#endif
