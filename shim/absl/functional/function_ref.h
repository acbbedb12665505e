#ifndef VSHIM_ABSL_FUNCREF_H_
#define VSHIM_ABSL_FUNCREF_H_
#include <functional>
namespace absl { template <typename S> using FunctionRef = std::function<S>; template <typename S> using AnyInvocable = std::function<S>; using std::bind; }
#endif
