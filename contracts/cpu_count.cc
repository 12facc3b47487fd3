//@ property: C22
//@ stub: _ZN8tcmalloc17tcmalloc_internal12ParseCpulistEN4absl7debian311FunctionRefIFlPcmEEE stub_parse
//@ noinline: _ZN8tcmalloc17tcmalloc_internal12ParseCpulistEN4absl7debian311FunctionRefIFlPcmEEE
//@ keep: stub_parse
//@ variant: inv:-DV_INV
//@ opt: count inv=1
// C22: NumPossibleCPUsNoCache, on the contract of ParseCpulist (cpulist.cc).
#include "v.h"
#include "tcmalloc_invariants.h"
#include "tcmalloc/internal/sysinfo.h"
#include "tcmalloc/internal/sysinfo.cc"
using namespace tcmalloc::tcmalloc_internal;
static VObj<CpuSet> g_set;
static bool g_ok;
static int g_open, g_reads;
namespace tcmalloc::tcmalloc_internal {
int signal_safe_open(const char* path, int flags, ...) {
  g_open++;
  return v::range("fd", 3, 100);
}
int signal_safe_close(int fd) {
  g_open--;
  return 0;
}
ssize_t signal_safe_read(int fd, char* buf, size_t count, size_t* bytes_read) { return -1; }
}
extern "C" __attribute__((noinline, used)) std::optional<CpuSet> stub_parse(absl::FunctionRef<ssize_t(char*, size_t)> read) {
  if (!g_ok) return std::nullopt;
  return g_set.v;
}
#ifndef V_NATIVE
V_HARNESS(count) {
  g_set.havoc("set");
  g_ok = v::any_bool("ok");
  g_open = 0;
  vinv::cl_cpu = v::range("cpu", 0, kMaxCpus - 1);
  std::optional<int> n = sysinfo_internal::NumPossibleCPUsNoCache();
  V_ASSERT(g_open == 0, "the file is closed");
  int q = vinv::cl_cpu;
  bool in = g_set.v.IsSet(q);
  if (!g_ok) {
    V_ASSERT(!n.has_value(), "no list, no count");
  } else if (n.has_value()) {
    V_ASSERT(*n >= 1 && *n <= kMaxCpus && g_set.v.IsSet(*n - 1), "the CPU before the count is a member");
    V_ASSERT(!in || q < *n, "no member is beyond the count");
  } else {
    V_ASSERT(!in, "only an empty set has no count");
  }
}
#endif
