// Shim: the installed Abseil plus the attribute macros newer code expects.
#ifndef VERIF_SHIM_ATTRIBUTES_H_
#define VERIF_SHIM_ATTRIBUTES_H_
#include_next "absl/base/attributes.h"
#ifndef ABSL_ATTRIBUTE_NO_UNIQUE_ADDRESS
#define ABSL_ATTRIBUTE_NO_UNIQUE_ADDRESS [[no_unique_address]]
#endif
#ifndef ABSL_ATTRIBUTE_TRIVIAL_ABI
#define ABSL_ATTRIBUTE_TRIVIAL_ABI
#endif
#ifndef ABSL_DEPRECATE_AND_INLINE
#define ABSL_DEPRECATE_AND_INLINE()
#endif
#ifndef ABSL_INTERNAL_ATTRIBUTE_CAPTURED_BY_THIS
#define ABSL_INTERNAL_ATTRIBUTE_CAPTURED_BY_THIS
#endif
#ifndef ABSL_ATTRIBUTE_LIFETIME_BOUND
#define ABSL_ATTRIBUTE_LIFETIME_BOUND
#endif
#endif
