#ifndef VSHIM_ABSL_UTILITY_H_
#define VSHIM_ABSL_UTILITY_H_
#include <utility>
#include <tuple>
namespace absl {
using std::in_place; using std::in_place_t; using std::in_place_type; using std::in_place_index; using std::exchange; using std::apply; using std::move; using std::forward; using std::index_sequence; using std::make_index_sequence; using std::swap;
}
#endif
