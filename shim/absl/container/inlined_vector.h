#ifndef VSHIM_ABSL_INLINED_VECTOR_H_
#define VSHIM_ABSL_INLINED_VECTOR_H_
#include "absl/types/span.h"
#include <vector>
#include "absl/base/macros.h"
namespace absl {
template <typename T, size_t N, typename A = std::allocator<T>>
class InlinedVector : public std::vector<T, A> {
  using B = std::vector<T, A>;
 public:
  using B::B;
  InlinedVector() = default;
  T& back() { ABSL_HARDENING_ASSERT(!this->empty()); return B::back(); }
  const T& back() const { ABSL_HARDENING_ASSERT(!this->empty()); return B::back(); }
  T& front() { ABSL_HARDENING_ASSERT(!this->empty()); return B::front(); }
  const T& front() const { ABSL_HARDENING_ASSERT(!this->empty()); return B::front(); }
  void pop_back() { ABSL_HARDENING_ASSERT(!this->empty()); B::pop_back(); }
  T& operator[](size_t i) { ABSL_HARDENING_ASSERT(i < this->size()); return B::operator[](i); }
  const T& operator[](size_t i) const { ABSL_HARDENING_ASSERT(i < this->size()); return B::operator[](i); }
};
template <typename T, size_t N, typename A = std::allocator<T>> using FixedArray = std::vector<T, A>;
}
#endif
