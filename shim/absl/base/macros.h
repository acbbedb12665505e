#ifndef VSHIM_ABSL_BASE_MACROS_H_
#define VSHIM_ABSL_BASE_MACROS_H_
#include <cassert>
#include <cstddef>
#include "absl/base/attributes.h"
#include "absl/base/optimization.h"
#define ABSL_ARRAYSIZE(a) (sizeof(a) / sizeof((a)[0]))
#define ABSL_ASSERT(x) assert(x)
#define ABSL_HARDENING_ASSERT(x) do { if (!(x)) __builtin_abort(); } while (0)
#define ABSL_INTERNAL_UNREACHABLE __builtin_unreachable()
#define ABSL_UNREACHABLE() __builtin_abort()
#endif
