// Header-only stand-in for the parts of Abseil that nsasm uses, expressed with
// the C++20 standard library.  See /verif/DESIGN.md ("The Abseil shim").
#ifndef VSHIM_ABSL_BASE_ATTRIBUTES_H_
#define VSHIM_ABSL_BASE_ATTRIBUTES_H_
#include "absl/vshim_prelude.h"
#define ABSL_MUST_USE_RESULT [[nodiscard]]
#define ABSL_FALLTHROUGH_INTENDED [[fallthrough]]
#define ABSL_ATTRIBUTE_UNUSED __attribute__((unused))
#define ABSL_ATTRIBUTE_NOINLINE __attribute__((noinline))
#define ABSL_ATTRIBUTE_ALWAYS_INLINE __attribute__((always_inline))
#define ABSL_ATTRIBUTE_NORETURN __attribute__((noreturn))
#define ABSL_ATTRIBUTE_PACKED __attribute__((packed))
#define ABSL_ATTRIBUTE_LIFETIME_BOUND
#define ABSL_ATTRIBUTE_COLD __attribute__((cold))
#define ABSL_ATTRIBUTE_HOT __attribute__((hot))
#define ABSL_CONST_INIT
#define ABSL_DEPRECATED(m)
#endif
