// Shim: adds ABSL_UNREACHABLE; branch hints are dropped (no meaning here).
#ifndef VERIF_SHIM_OPTIMIZATION_H_
#define VERIF_SHIM_OPTIMIZATION_H_
#include_next "absl/base/optimization.h"
#ifndef ABSL_UNREACHABLE
#define ABSL_UNREACHABLE() __builtin_unreachable()
#endif
#undef ABSL_PREDICT_TRUE
#undef ABSL_PREDICT_FALSE
#define ABSL_PREDICT_TRUE(x) (false || (x))
#define ABSL_PREDICT_FALSE(x) (false || (x))
#endif
