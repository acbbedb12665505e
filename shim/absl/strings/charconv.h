#include "absl/strings/numbers.h"
