#ifndef VSHIM_ABSL_OPTIONAL_H_
#define VSHIM_ABSL_OPTIONAL_H_
#include <cassert>
#include <optional>
#include "absl/base/attributes.h"
#include "absl/utility/utility.h"
namespace absl {
using std::optional; using std::nullopt; using std::nullopt_t; using std::make_optional; using std::bad_optional_access;
}
#endif
