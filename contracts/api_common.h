// The entry points of tcmalloc.cc, included textually, with every callee below
// the size arithmetic replaced by its contract.
#include "v.h"
#include <errno.h>
#include <algorithm>
#include <optional>
#define TCMALLOC_MALLOC_HOOK_INVOKE_H_  // hooks: contract below
#undef errno
#define errno contract_errno
static int contract_errno;
#include <map>
#include <memory>
#include <string>
namespace tcmalloc::tcmalloc_internal {
struct ContractHooks { bool empty() const { return v::any_bool("no hooks"); } };
static ContractHooks new_hooks_, delete_hooks_;
}
#include <vector>
#define private public  // the sampled state of a span is set directly
#include "tcmalloc/span.h"
#undef private
#define final  // ContractGlobals below is derived from Static
#include "tcmalloc/static_vars.h"
#undef final
#include "tcmalloc/alloc_at_least.h"
#include "tcmalloc/common.h"
#include "tcmalloc/cpu_cache.h"
#include "tcmalloc/error_reporting.h"
#include "tcmalloc/internal/memory_tag.h"
#include "tcmalloc/malloc_hook.h"
#include "tcmalloc/parameters.h"
#include "tcmalloc/sizemap.h"
#include "tcmalloc/span.h"
#include "tcmalloc/static_vars.h"
#include "tcmalloc/malloc_tracing_extension.h"
#include "tcmalloc/allocation_sample.h"
#include "tcmalloc/deallocation_profiler.h"

namespace tcmalloc::tcmalloc_internal {
using u128 = unsigned __int128;
static constexpr uintptr_t kSpace = uintptr_t{1} << 47;

// The request: set by the harness, checked by the contracts of the callees.
static u128 g_size;        // exact number of bytes asked for
static size_t g_align;     // alignment asked for (1: none)
static bool g_alloc;       // the call may allocate
static int g_blocks;       // blocks handed out
static uintptr_t g_block;  // the block
static size_t g_cap;       // its capacity
static size_t g_block_align;
static size_t g_class;
static size_t g_class_align;
static size_t g_hook_size, g_hook_cap;
static int g_freed;
static uintptr_t g_freed_ptr;
static size_t g_pages;
static bool g_oom;
static bool g_touched;   // the caller writes to the block:
static size_t g_room;    // its size
// The existing block (realloc).
static uintptr_t g_old;
static size_t g_old_class, g_old_size;
static bool g_old_guarded;

static size_t class_size(size_t c) { return __v_uf("class_to_size", c, 0, 0, 0); }

static inline void* hand_out(size_t cap, size_t align, uintptr_t addr) {
  V_ASSERT(g_alloc, "no memory is allocated for a rejected request");
  V_ASSERT(g_blocks == 0, "one block is allocated");
  V_ASSERT(cap >= g_size, "the block is large enough");
  V_ASSERT(align >= g_align, "the block is aligned as asked for");
  g_blocks++;
  g_block = addr;
  g_cap = cap;
  V_ASSUME(addr % align == 0);
  V_ASSUME(!g_touched || cap == g_room);
  return reinterpret_cast<void*>(addr);
}

struct ContractSizeMap {
  template <typename Policy>
  SizeMap::SizeMapResult GetSizeClass(Policy policy, size_t size) const {
    size_t a = static_cast<size_t>(policy.align());
    V_ASSERT(a != 0 && (a & (a - 1)) == 0, "the alignment used is a power of two");
    V_ASSERT(size == g_size, "the size used is the exact size");
    if (size > kMaxSize || a > kPageSize) return {false};
    V_ASSUME(class_size(g_class) >= size && class_size(g_class) % a == 0);
    g_class_align = std::max(a, static_cast<size_t>(kAlignment));
    return {true, g_class};
  }
  size_t class_to_size(size_t c) const {
    V_ASSERT(c < kNumClasses, "a size class");
    return class_size(c);
  }
  std::pair<size_t, size_t> class_to_size_range(size_t c) const { return {v::range("min", 0, class_size(c)), class_size(c)}; }
};
struct ContractGuarded {
  bool PointerIsMine(const void* p) const { return g_old_guarded && reinterpret_cast<uintptr_t>(p) == g_old; }
  size_t GetRequestedSize(const void*) const { return g_old_size; }
  bool PointerIsCorrectlyAligned(const void*) const { return true; }
  void Deallocate(void* p) {
    g_freed++;
    g_freed_ptr = reinterpret_cast<uintptr_t>(p);
  }
};
struct ContractCpuCache {
  void* Allocate(size_t c) {
    V_ASSERT(c == g_class && g_class_align != 0, "the class found for the request is used");
    if (g_oom) return nullptr;
    return hand_out(class_size(c), g_class_align, g_block);
  }
  void* AllocateFast(size_t c) { return v::any_bool("fast") ? Allocate(c) : nullptr; }
  void* AllocateSlow(size_t c) { return Allocate(c); }
  void* AllocateSlowNoHooks(size_t c) { return Allocate(c); }
  void Free(void* p, size_t c) {
    g_freed++;
    g_freed_ptr = reinterpret_cast<uintptr_t>(p);
    V_ASSERT(c == g_old_class, "a block is freed to its class");
  }
  bool DeallocateFast(void* p, size_t c) {
    if (!v::any_bool("fast free")) return false;
    Free(p, c);
    return true;
  }
  void DeallocateSlow(void* p, size_t c) { Free(p, c); }
  void DeallocateSlowNoHooks(void* p, size_t c) { Free(p, c); }
  void MaybeForceSlowPath() {}
  size_t Drain(int) { return 0; }
};
struct ContractPageAllocator : PageAllocator {
  template <typename What>
  void Delete(What, MemoryTag, SpanAllocInfo) {
    g_freed++;
    g_freed_ptr = g_old;
    V_ASSERT(g_old_class == 0 && !g_old_guarded, "pages are freed to the page allocator");
  }
  Span* NewAligned(Length n, Length align, SpanAllocInfo, MemoryTag tag);
};
union SpanSpace { char c; Span s; SpanSpace() {} ~SpanSpace() {} };
static SpanSpace g_span, g_old_span;
}  // namespace tcmalloc::tcmalloc_internal

namespace tcmalloc::tcmalloc_internal {
inline Span* ContractPageAllocator::NewAligned(Length n, Length align, SpanAllocInfo, MemoryTag tag) {
  V_ASSERT(n.raw_num() >= 1, "at least one page is asked for");
  V_ASSERT((u128(n.raw_num()) << kPageShift) >= g_size, "the pages asked for hold the size");
  V_ASSERT(((u128(n.raw_num()) << kPageShift) - g_size < kPageSize) | (g_size == 0), "no page too many is asked for");
  V_ASSERT((u128(align.raw_num()) << kPageShift) >= g_align, "the pages are aligned as asked for");
  size_t a = align.raw_num();
  V_ASSERT((a & (a - 1)) == 0, "the page alignment used is a power of two");
  if (g_oom || n.raw_num() >= (kSpace >> kPageShift) || align.raw_num() >= (kSpace >> kPageShift)) return nullptr;
  hand_out(n.in_bytes(), a == 0 ? kPageSize : align.in_bytes(), g_block);
  V_ASSUME(g_block % kPageSize == 0 && g_block >= kPageSize && g_block < kSpace - n.in_bytes());
  V_ASSUME((g_block & kTagMask) == static_cast<uintptr_t>(tag) << kTagShift);
  g_pages = n.raw_num();
  return new (&g_span.s) Span(Range{PageIdContaining(reinterpret_cast<void*>(g_block)), n});
}
struct ContractPageMap {
  std::pair<Span*, size_t> GetDescriptorAndSizeClass(PageId p) const {
    V_ASSERT(p == PageId(g_old >> kPageShift), "the page of the block is looked up");
    return {&g_old_span.s, g_old_class};
  }
  size_t sizeclass(PageId p) const {
    V_ASSERT(p == PageId(g_old >> kPageShift), "the page of the block is looked up");
    return g_old_class;
  }
  Span* GetDescriptor(PageId p) const { return &g_old_span.s; }
  bool HasLeaf(PageId) const { return true; }
  int GetAllocatedSpans(std::vector<tcmalloc::malloc_tracing_extension::AllocatedAddressRanges::SpanDetails>&) const { return 0; }
};
struct ContractGlobals : Static {
  static bool IsInited() { return true; }
  static void InitIfNecessary() {}
  static ContractSizeMap sizemap() { return {}; }
  static ContractCpuCache cpu_cache() { return {}; }
  static ContractPageMap pagemap() { return {}; }
  ContractGuarded guarded;
  ContractGuarded& guardedpage_allocator() { return guarded; }
  static ContractPageAllocator& page_allocator() { return *static_cast<ContractPageAllocator*>(nullptr); }
};
static ContractGlobals contract_globals;
}  // namespace tcmalloc::tcmalloc_internal
#define tc_globals contract_globals
namespace tcmalloc::tcmalloc_internal { [[noreturn]] void ContractCrashWithOOM(size_t); }
#define CrashWithOOM tcmalloc::tcmalloc_internal::ContractCrashWithOOM
#include "tcmalloc/tcmalloc_policy.h"
#undef CrashWithOOM
#undef tc_globals
#include "tcmalloc/allocation_sampling.h"
namespace tcmalloc::tcmalloc_internal {
struct ContractSampler {
  size_t RecordedAllocationFast(size_t) { return v::any_bool("weight") ? v::any<size_t>("weight") : 0; }
  size_t RecordAllocation(size_t) { return v::any<size_t>("weight"); }
  bool TryRecordAllocationFast(size_t) { return v::any_bool("try record"); }
  bool WillRecordAllocation(size_t) { return v::any_bool("will record"); }
};
inline ContractSampler ContractThreadSampler() { return {}; }
inline bool ContractUsePerCpu(Static&) { return true; }
template <typename Policy>
sized_ptr_t ContractSampleLarge(Static&, Policy, size_t size, size_t weight, Span* span) {
  V_ASSERT(span == &g_span.s && size == g_size, "the span of the request is sampled");
  return {span->start_address(), span->bytes_in_span()};
}
template <typename Policy>
sized_ptr_t ContractSampleSmall(Static&, Policy policy, size_t size, size_t weight, size_t size_class) {
  V_ASSERT(size == g_size && size_class == g_class, "the request is sampled");
  if (g_oom) return {nullptr, 0};
  size_t cap = v::any_bool("guarded") ? size : class_size(size_class);
  hand_out(cap, std::max<size_t>(static_cast<size_t>(policy.align()), 1), g_block);
  return {reinterpret_cast<void*>(g_block), cap};
}
template <typename Policy>
void ContractUnsample(Static&, Policy, void* ptr, std::optional<size_t>, Span& span) { V_ASSERT(&span == &g_old_span.s, "the span of the block"); }
struct ContractPageHeapLock { ContractPageHeapLock() {} ~ContractPageHeapLock() {} };
static size_t g_page_size = 4096;
inline size_t ContractPageSize() { return g_page_size; }
}  // namespace tcmalloc::tcmalloc_internal

namespace contract { using namespace tcmalloc::tcmalloc_internal; }
#define TCMALLOC_LIBC_OVERRIDE_H_
#define TCMALLOC_ALIAS(fn) __attribute__((alias(#fn), visibility("default")))
#define tc_globals contract_globals
#define GetThreadSampler ContractThreadSampler
#define UsePerCpuCache ContractUsePerCpu
#define SampleLargeAllocation ContractSampleLarge
#define SampleSmallAllocation ContractSampleSmall
#define GetPageSize ContractPageSize
#define MaybeUnsampleAllocation ContractUnsample
#define PageHeapSpinLockHolder ContractPageHeapLock
#define module_enter_exit_hook module_enter_exit_hook()
#include "tcmalloc/tcmalloc.cc"

#undef tc_globals
#undef GetThreadSampler
#undef UsePerCpuCache
#undef SampleLargeAllocation
#undef SampleSmallAllocation
#undef GetPageSize
#undef MaybeUnsampleAllocation
#undef PageHeapSpinLockHolder
#undef module_enter_exit_hook
// The fallback entry points, on the contract of malloc and aligned_alloc.
namespace std {
void* contract_malloc(size_t n) { return TCMallocInternalMalloc(n); }
void* contract_aligned_alloc(size_t a, size_t n) { return TCMallocInternalAlignedAlloc(a, n); }
}
#define malloc contract_malloc
#define aligned_alloc contract_aligned_alloc
#define alloc_at_least fallback_alloc_at_least
#define aligned_alloc_at_least fallback_aligned_alloc_at_least
#include "tcmalloc/alloc_at_least.cc"
#undef malloc
#undef aligned_alloc
#undef alloc_at_least
#undef aligned_alloc_at_least

// Callees outside of the size arithmetic.
namespace tcmalloc {
void MallocHook::InvokeNewHook(const NewInfo& i) {
  V_ASSERT(i.requested_size <= i.allocated_size, "the hook is told a capacity of at least the size");
}
void MallocHook::InvokeDeleteHook(const DeleteInfo& i) {}
namespace tcmalloc_internal {
static int g_partitioning;  // fixed for the process
HeapPartitioningMode Parameters::heap_partitioning_mode() { return static_cast<HeapPartitioningMode>(g_partitioning); }
[[noreturn]] static void wrong(const char* n) {
  V_ASSERT(false, n);
  __v_stop();
  __builtin_unreachable();
}
void ContractCrashWithOOM(size_t) {
  V_ASSERT(g_blocks == 0, "only memory there is not ends the process");
  __v_stop();
  __builtin_unreachable();
}
void ReportMismatchedDelete(Static&, const void*, size_t, size_t, std::optional<size_t>) { wrong("no wrong size is reported"); }
void ReportMismatchedDelete(Static&, const void*, size_t, size_t, size_t) { wrong("no wrong size is reported"); }
void ReportDoubleFree(Static&, const void*) { wrong("no double free is reported"); }
void ReportCorruptedFree(Static&, const void*) { wrong("no corrupted free is reported"); }
void ReportCorruptedFree(Static&, std::align_val_t, const void*) { wrong("no corrupted free is reported"); }
void Span::Delete(Span* s) { V_ASSERT(s == &g_old_span.s, "the span freed"); }
}  // namespace tcmalloc_internal
}  // namespace tcmalloc
using namespace tcmalloc::tcmalloc_internal;
using namespace tcmalloc;
// The start of a page, said as the block that starts there.
extern "C" __attribute__((noinline, used)) void* stub_start_addr(const PageId* p) {
  uintptr_t a = p->index() << kPageShift;
  if (g_blocks == 1 && a == g_block) return reinterpret_cast<void*>(g_block);
  return reinterpret_cast<void*>(a);
}

static constexpr size_t kMost = ~size_t{0};
static inline void request(u128 size, size_t align, bool alloc = true) {
  g_size = size;
  g_align = align;
  g_alloc = alloc;
  g_blocks = 0;
  g_freed = 0;
  g_class_align = 0;
  g_cap = 0;
  g_oom = v::any_bool("oom");
  g_partitioning = v::range("partitioning", 0, 2);
  g_class = v::range("class", 1, kNumClasses - 1);
  g_block = v::range("block", 1, kSpace / 8 - 1) * 8;
  g_touched = false;
  errno = 0;
}
static inline void touched() {
  g_touched = true;
  g_room = v::any<size_t>("room");
  V_ASSUME(g_room < kSpace / 2);
  g_block = reinterpret_cast<uintptr_t>(__v_region(g_block, g_room, 1, "block"));
}
// Postcondition of every allocation: the block handed out for exactly the
// request, or a failure.
static inline void got(const void* p, bool malloc_like = true) {
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  V_ASSERT((g_blocks == 1) == (p != nullptr), "a request fails or is given a block");
  V_ASSERT(p == nullptr || a == g_block, "the block allocated is returned");
  V_ASSERT(p == nullptr || g_cap >= g_size, "the block holds the size asked for");
  V_ASSERT(p == nullptr || (a & (g_align - 1)) == 0, "the block is aligned as asked for");
  if (malloc_like) V_ASSERT(p != nullptr || errno == ENOMEM, "failing sets errno");
}
static inline void got_sized(const void* p, size_t n, bool malloc_like = true) {
  got(p, malloc_like);
  V_ASSERT(p == nullptr || (n >= g_size && n <= g_cap), "the capacity reported is there and at least the size");
  V_ASSERT(p != nullptr || n == 0, "no capacity is reported for no block");
}
