#ifndef VSHIM_ABSL_CLEANUP_H_
#define VSHIM_ABSL_CLEANUP_H_
#include <utility>
namespace absl {
template <typename F> class Cleanup { public: Cleanup(F f) : f_(std::move(f)) {} ~Cleanup() { if (on_) f_(); } void Cancel() && { on_ = false; } void Invoke() && { if (on_) f_(); on_ = false; } Cleanup(const Cleanup&) = delete; private: F f_; bool on_ = true; };
template <typename F> Cleanup(F) -> Cleanup<F>;
template <typename F> auto MakeCleanup(F f) { return Cleanup<F>(std::move(f)); }
}
#endif
