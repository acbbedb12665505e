#ifndef VSHIM_ABSL_CASTS_H_
#define VSHIM_ABSL_CASTS_H_
#include <bit>
namespace absl {
using std::bit_cast;
template <class To> constexpr To implicit_cast(std::type_identity_t<To> t) { return t; }
}
#endif
