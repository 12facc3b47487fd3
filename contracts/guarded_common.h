// GuardedPageAllocator on the contracts of the system, page map and arena.
#include "v.h"
#include <sys/mman.h>
#include <errno.h>
#include <algorithm>
#include <atomic>
#include <array>
#include <cmath>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>
#include "tcmalloc/internal/stacktrace_filter.h"
#include "tcmalloc/internal/page_size.h"
#include "absl/debugging/stacktrace.h"
#include "absl/base/internal/sysinfo.h"
#include "absl/base/internal/cycleclock.h"
#include "tcmalloc/internal/exponential_biased.h"
#include "tcmalloc/internal/logging.h"
namespace tcmalloc::tcmalloc_internal {
static int g_added;
template <size_t A, size_t B, size_t C>
struct ContractFilter {
  constexpr ContractFilter() {}
  template <typename T> void Add(const T&, int) { g_added++; }
  template <typename T> bool Contains(const T&) const { return v::any_bool("seen"); }
  void Decay() {}
  void DecayAll() {}
  char c_ = 0;
};
template <size_t A, size_t B, size_t C>
struct ContractFilterSpan : ContractFilter<A, B, C> {
  constexpr ContractFilterSpan() {}
  void Add(absl::Span<void* const>, int) { g_added++; }
  bool Contains(absl::Span<void* const>) const { return v::any_bool("seen"); }
};
}
#define DecayingStackTraceFilter ContractFilterSpan
#define private public
#include "tcmalloc/guarded_page_allocator.h"
#undef private
#undef DecayingStackTraceFilter
#define final
#include "tcmalloc/static_vars.h"
#undef final
#include "tcmalloc/error_reporting.h"

namespace tcmalloc::tcmalloc_internal {
static constexpr uintptr_t kSpace = uintptr_t{1} << 47;
static size_t g_ps;                // page size
static uintptr_t g_base, g_len;    // area mapped
static int g_protects;
static uintptr_t g_prot_addr, g_prot_len;
static int g_prot;
static bool g_prot_fails, g_maps_ok;
static bool g_may_touch, g_may_report;
static int g_touched;
static inline void contract_on_touch();
struct Meta { GuardedPageAllocator::SlotMetadata m[GuardedPageAllocator::kGpaMaxPages]; };
static VObj<Meta> g_meta;

static inline int contract_mprotect(void* p, size_t n, int prot) {
  g_protects++;
  g_prot_addr = reinterpret_cast<uintptr_t>(p);
  g_prot_len = n;
  g_prot = prot;
  return g_prot_fails ? -1 : 0;
}
static inline int contract_munmap(void* p, size_t n) {
  V_ASSERT(reinterpret_cast<uintptr_t>(p) == g_base && n == g_len, "the area is unmapped");
  return 0;
}
struct ContractSystem {
  void* MmapAligned(size_t n, size_t align, MemoryTag tag) {
    V_ASSERT(align == g_ps && tag == MemoryTag::kSampled, "aligned memory with the tag of sampled objects");
    g_len = n;
    V_ASSUME(n < kSpace - g_base);
    return reinterpret_cast<void*>(g_base);
  }
};
struct ContractPageMap2 {
  bool Ensure(Range r) {
    V_ASSERT(r.p == PageId(g_base >> kPageShift) && r.n.in_bytes() == g_len, "the page map covers the area");
    return true;
  }
};
struct ContractArena {
  void* Alloc(size_t n) { 
    V_ASSERT(n <= sizeof(g_meta), "metadata of every slot");
    return &g_meta;
  }
};
struct ContractGlobals2 : Static {
  ContractSystem sys;
  ContractPageMap2 pm;
  ContractArena ar;
  ContractSystem& system_allocator() { return sys; }
  ContractPageMap2& pagemap() { return pm; }
  ContractArena& arena() { return ar; }
};
static ContractGlobals2 contract_globals;
void ReportCorruptedFree(Static&, std::align_val_t, const void*, absl::Span<void*>) {
  V_ASSERT(g_may_report, "only the start of an allocation is freed without a report");
  V_COVER(true, "reported");
  __v_stop();
  __builtin_unreachable();
}
size_t GetPageSize() { return 4096; }
}  // namespace tcmalloc::tcmalloc_internal
namespace absl {
ABSL_NAMESPACE_BEGIN
static inline int contract_trace(void** stack, int max, int skip) { return v::range("depth", 0, max); }
namespace base_internal {
struct ContractClock { static int64_t Now() { return v::any<int64_t>("now"); } };
static inline pid_t contract_tid() { return v::any<pid_t>("tid"); }
}
ABSL_NAMESPACE_END
}
extern "C" __attribute__((noinline, used)) uint64_t stub_random(uint64_t) { return v::any<uint64_t>("random"); }
static tcmalloc::tcmalloc_internal::GuardedPageAllocator* g_gpa;
#ifndef V_ON_TOUCH
static inline void tcmalloc::tcmalloc_internal::contract_on_touch() {}
#endif
extern "C" __attribute__((noinline, used)) void stub_touch(void* p) {
  using namespace tcmalloc::tcmalloc_internal;
  V_ASSERT(g_may_touch, "the page is touched only to report an error");
  contract_on_touch();
  g_touched++;
  __v_stop();
  __builtin_unreachable();
}
#define mprotect contract_mprotect
#define munmap contract_munmap
#define tc_globals contract_globals
#define GetStackTrace contract_trace
#define GetTID contract_tid
#define CycleClock ContractClock
#include "tcmalloc/guarded_page_allocator.cc"
#undef mprotect
#undef munmap
#undef GetStackTrace
#undef GetTID
#undef CycleClock
#undef tc_globals

namespace tcmalloc::tcmalloc_internal {
using G = GuardedPageAllocator;
static VObj<G> g;
static size_t g_total;
static uintptr_t g_first;
// The state after Init: geometry.
static inline void any_geometry(size_t ps) {
  g.havoc("gpa");
  g_ps = ps;
  g_total = v::range("total", 1, G::kGpaMaxPages);
  g_base = v::range("base", 1, kSpace / ps) * ps;
  g_len = (2 * g_total + 1) * ps;
  V_ASSUME(g_base + g_len <= kSpace);
  g_first = g_base + ps;
  g->page_size_ = ps;
  g->total_pages_ = g_total;
  g->max_allocated_pages_ = v::range("max", 1, G::kGpaMaxPages);
  V_ASSUME(g->max_allocated_pages_ <= g_total);
  g->pages_base_addr_ = g_base;
  g->pages_end_addr_ = g_base + g_len;
  g->first_page_addr_ = g_first;
  g->data_ = g_meta.v.m;
  g->initialized_ = true;
  g->allow_allocations_ = true;
  new (&g->guarded_page_lock_) absl::base_internal::SpinLock;
  for (StatsCounter* c : {&g->successful_allocations_, &g->failed_allocations_, &g->skipped_allocations_noslots_, &g->pages_touched_}) {
    V_ASSUME(c->value() >= 0 && c->value() < int64_t{1} << 60);
  }
  g_protects = 0;
  g_prot_fails = g_may_touch = g_may_report = false;
}
static inline uintptr_t page_of(size_t slot) { return g_first + 2 * g_ps * slot; }

}
