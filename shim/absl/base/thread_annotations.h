#include "absl/base/macros.h"
