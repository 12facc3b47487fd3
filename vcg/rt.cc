// Stand-ins for repository functions outside every contract: the failure
// handlers (reaching one is an obligation), logging and allocation hooks.
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include "v.h"
#include "tcmalloc/internal/logging.h"
#include "tcmalloc/internal/allocation_guard.h"
#define WEAK __attribute__((weak))
extern "C" WEAK void __v_lock_error(const char* what) { __v_assert(false, what); }
extern "C" WEAK int __v_snprintf(char* b, size_t n) {
  // at most n bytes, NUL-terminated; any would-be length
  int r = static_cast<int>(v::any<uint32_t>("snprintf"));
  if (n > 0) { b[0] = 0; }
  return r;
}
namespace tcmalloc {
namespace tcmalloc_internal {
WEAK void CheckFailed(const char* file, int line, const char* msg, int) {
  fprintf(stderr, "CHECK-FAILED %s:%d %s\n", file, line, msg);
  fflush(stderr);
  _exit(43);
}
WEAK void CrashWithOOM(size_t) { fprintf(stderr, "OOM\n"); _exit(43); }
#ifndef NDEBUG
WEAK thread_local int AllocationGuard::disallowed_ = 0;
#endif
static void no_log(const char*, int) {}
WEAK void (*log_message_writer)(const char* msg, int length) = no_log;
}  // namespace tcmalloc_internal
WEAK bool MallocHook::AddNewHook(void (*)(const MallocHook::NewInfo&)) { return true; }
WEAK bool MallocHook::RemoveNewHook(void (*)(const MallocHook::NewInfo&)) { return true; }
}  // namespace tcmalloc
