#ifndef VSHIM_ABSL_MEMORY_H_
#define VSHIM_ABSL_MEMORY_H_
#include "absl/types/span.h"
#include <memory>
#include <utility>
namespace absl {
using std::make_unique;
template <typename T> auto WrapUnique(T* p) { return std::unique_ptr<T>(p); }
}
#endif
