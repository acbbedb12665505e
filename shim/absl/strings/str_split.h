#ifndef VSHIM_ABSL_STR_SPLIT_H_
#define VSHIM_ABSL_STR_SPLIT_H_
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include "absl/strings/ascii.h"
namespace absl {
struct ByString { std::string d; explicit ByString(std::string_view s) : d(s) {} std::pair<size_t, size_t> Find(std::string_view t, size_t p) const { if (d.empty()) return t.size() - p <= 1 ? std::pair<size_t,size_t>{t.npos, 0} : std::pair<size_t,size_t>{p + 1, 0}; return {t.find(d, p), d.size()}; } };
struct ByChar { char c; explicit ByChar(char x) : c(x) {} std::pair<size_t, size_t> Find(std::string_view t, size_t p) const { return {t.find(c, p), 1}; } };
struct ByAnyChar { std::string d; explicit ByAnyChar(std::string_view s) : d(s) {} std::pair<size_t, size_t> Find(std::string_view t, size_t p) const { return {t.find_first_of(d, p), 1}; } };
struct AllowEmpty { bool operator()(std::string_view) const { return true; } };
struct SkipEmpty { bool operator()(std::string_view s) const { return !s.empty(); } };
struct SkipWhitespace { bool operator()(std::string_view s) const { return !StripAsciiWhitespace(s).empty(); } };
template <typename D> struct MaxSplitsImpl { D d; int n; };
class vshim_splitter {
 public:
  std::string held; std::vector<std::string_view> v;
  using const_iterator = std::vector<std::string_view>::const_iterator; using value_type = std::string_view;
  const_iterator begin() const { return v.begin(); } const_iterator end() const { return v.end(); }
  template <typename C, typename = std::enable_if_t<!std::is_same_v<C, std::string_view> && !std::is_same_v<C, std::string>>, typename T = typename C::value_type, typename = std::enable_if_t<std::is_constructible_v<T, std::string_view>>>
  operator C() const { C c; for (auto s : v) c.insert(c.end(), T(s)); return c; }
  template <typename A, typename B> operator std::pair<A, B>() const { std::pair<A, B> p; if (v.size() > 0) p.first = A(v[0]); if (v.size() > 1) p.second = B(v[1]); return p; }
};
template <typename D> auto vshim_delim(D d) { if constexpr (std::is_same_v<D, char>) return ByChar(d); else if constexpr (std::is_convertible_v<D, std::string_view>) return ByString(std::string_view(d)); else return d; }
template <typename D, typename P> vshim_splitter vshim_split(std::string_view t, D d, P p) {
  vshim_splitter r; size_t pos = 0;
  while (true) { auto [i, n] = d.Find(t, pos); std::string_view s = i == t.npos ? t.substr(pos) : t.substr(pos, i - pos); if (p(s)) r.v.push_back(s); if (i == t.npos) break; pos = i + n; }
  return r; }
template <typename D, typename P = AllowEmpty> vshim_splitter StrSplit(std::string_view t, D d, P p = P()) { return vshim_split(t, vshim_delim(d), p); }
}
#endif
