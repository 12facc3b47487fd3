#ifndef VERIF_SHIM_LOG_H_
#define VERIF_SHIM_LOG_H_
#include "absl/log/check.h"
#define LOG(x) VShimNullStream()
#endif
