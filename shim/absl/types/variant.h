#ifndef VSHIM_ABSL_VARIANT_H_
#define VSHIM_ABSL_VARIANT_H_
#include <variant>
#include "absl/base/attributes.h"
namespace absl {
using std::variant; using std::monostate; using std::get; using std::get_if; using std::holds_alternative; using std::visit; using std::variant_size; using std::variant_alternative; using std::bad_variant_access; using std::variant_npos; using std::variant_alternative_t;
}
#endif
