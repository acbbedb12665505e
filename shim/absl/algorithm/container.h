#ifndef VSHIM_ABSL_ALGO_H_
#define VSHIM_ABSL_ALGO_H_
#include "absl/types/span.h"
#include <algorithm>
#include <numeric>
#include <iterator>
namespace absl {
#define VSHIM_C(name) template <typename C, typename... A> decltype(auto) c_##name(C&& c, A&&... a) { return std::name(std::begin(c), std::end(c), std::forward<A>(a)...); }
VSHIM_C(any_of) VSHIM_C(all_of) VSHIM_C(none_of) VSHIM_C(find) VSHIM_C(find_if) VSHIM_C(find_if_not) VSHIM_C(count) VSHIM_C(count_if) VSHIM_C(for_each) VSHIM_C(sort) VSHIM_C(stable_sort) VSHIM_C(copy) VSHIM_C(copy_if) VSHIM_C(transform) VSHIM_C(reverse) VSHIM_C(fill) VSHIM_C(accumulate) VSHIM_C(lower_bound) VSHIM_C(upper_bound) VSHIM_C(binary_search) VSHIM_C(max_element) VSHIM_C(min_element) VSHIM_C(unique) VSHIM_C(is_sorted) VSHIM_C(adjacent_find)
#undef VSHIM_C
template <typename A, typename B> bool c_equal(const A& a, const B& b) { return std::equal(std::begin(a), std::end(a), std::begin(b), std::end(b)); }
template <typename C, typename V> bool c_linear_search(const C& c, const V& v) { return std::find(std::begin(c), std::end(c), v) != std::end(c); }
}
#endif
