#ifndef VSHIM_ABSL_BASE_OPT_H_
#define VSHIM_ABSL_BASE_OPT_H_
#define ABSL_PREDICT_TRUE(x) (__builtin_expect(!!(x), 1))
#define ABSL_PREDICT_FALSE(x) (__builtin_expect(!!(x), 0))
#endif
