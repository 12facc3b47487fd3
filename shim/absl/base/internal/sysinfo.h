// Shim: thread and CPU identity are not of interest here.
#ifndef VERIF_SHIM_SYSINFO_H_
#define VERIF_SHIM_SYSINFO_H_
#include <sys/types.h>
#include "absl/base/config.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
namespace base_internal {
inline pid_t GetTID() { return 1; }
inline int NumCPUs() { return 4; }
}
ABSL_NAMESPACE_END
}
#endif
