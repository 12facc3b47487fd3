// Shim: nullability annotations carry no code.
#ifndef VERIF_SHIM_NULLABILITY_H_
#define VERIF_SHIM_NULLABILITY_H_
#include "absl/base/attributes.h"
#ifndef absl_nonnull
#define absl_nonnull
#define absl_nullable
#define absl_nullability_unknown
#define ABSL_POINTERS_DEFAULT_NONNULL
#endif
namespace absl {
template <typename T> using Nonnull = T;
template <typename T> using Nullable = T;
template <typename T> using NullabilityUnknown = T;
}
#endif
