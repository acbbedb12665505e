#ifndef VSHIM_ABSL_STR_JOIN_H_
#define VSHIM_ABSL_STR_JOIN_H_
#include <string>
#include <tuple>
#include "absl/strings/str_cat.h"
namespace absl {
struct vshim_alnum_fmt { template <typename T> void operator()(std::string* o, const T& v) const { StrAppend(o, v); } };
inline vshim_alnum_fmt AlphaNumFormatter() { return {}; }
template <typename F1, typename F2> auto PairFormatter(F1 f, std::string_view sep, F2 g) { return [=, s = std::string(sep)](std::string* o, const auto& p) { f(o, p.first); o->append(s); g(o, p.second); }; }
inline auto PairFormatter(std::string_view sep) { return PairFormatter(AlphaNumFormatter(), sep, AlphaNumFormatter()); }
template <typename It, typename F, typename = std::enable_if_t<!std::is_convertible_v<F, std::string_view>>>
std::string StrJoin(It b, It e, std::string_view sep, F&& f) { std::string r; bool first = true; for (; b != e; ++b) { if (!first) r.append(sep); first = false; f(&r, *b); } return r; }
template <typename It> std::string StrJoin(It b, It e, std::string_view sep) { return StrJoin(b, e, sep, vshim_alnum_fmt()); }
template <typename C, typename F, typename = decltype(std::begin(std::declval<const C&>())), typename = std::enable_if_t<!std::is_convertible_v<F, std::string_view>>>
std::string StrJoin(const C& c, std::string_view sep, F&& f) { return StrJoin(std::begin(c), std::end(c), sep, std::forward<F>(f)); }
template <typename C, typename = decltype(std::begin(std::declval<const C&>()))>
std::string StrJoin(const C& c, std::string_view sep) { return StrJoin(std::begin(c), std::end(c), sep, vshim_alnum_fmt()); }
template <typename T> std::string StrJoin(std::initializer_list<T> c, std::string_view sep) { return StrJoin(c.begin(), c.end(), sep, vshim_alnum_fmt()); }
}
#endif
