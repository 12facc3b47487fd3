//@ property: C30
//@ variant: default:
//@ variant: large!:-DTCMALLOC_INTERNAL_256K_PAGES
//@ variant: numa!:-DTCMALLOC_INTERNAL_NUMA_AWARE
//@ opt: .* lia=10
//@ noinline: _ZNK8tcmalloc17tcmalloc_internal6PageId10start_addrEv
//@ stub: _ZNK8tcmalloc17tcmalloc_internal6PageId10start_addrEv stub_start_addr
//@ assume: the heap is initialised (the first call of the process goes through the same functions with size class 0)
//@ assume: the size class map, the per-CPU cache, the page allocator, sampling, hooks and the page map are replaced by their contracts (C02, C05, C15): a class holds at least the size asked for and is a multiple of the alignment; blocks are as large as their class and aligned as asked for; a size class serves every size up to kMaxSize with an alignment of at most a page; the page allocator fails for more pages than the address space has
// C30: realloc and reallocarray.
#include "api_common.h"

// realloc: an existing block of any kind, any new size.
enum class Old { kSmall, kLarge, kSampled, kGuarded };
alignas(64) static char g_record[sizeof(SampledAllocation)];
static inline char* old_block(Old kind) {
  bool small = kind == Old::kSmall;
  g_old_class = small ? v::range("old class", 1, kNumClasses - 1) : 0;
  g_old_guarded = kind == Old::kGuarded;
  MemoryTag tag = kind == Old::kSampled || kind == Old::kGuarded ? MemoryTag::kSampled
                  : small && !IsExpandedSizeClass(g_old_class)   ? MemoryTag::kNormal
                                                                 : MemoryTag::kCold;
  if (kind == Old::kLarge) tag = MemoryTag::kNormal;
  uintptr_t a = static_cast<uintptr_t>(tag) << kTagShift | (kind == Old::kSmall || kind == Old::kGuarded ? v::range("old", 1, (uintptr_t{1} << kTagShift) / 8 - 1) * 8 : v::range("old page", 1, ((uintptr_t{1} << kTagShift) >> kPageShift) - 1) << kPageShift);
  size_t pages = v::range("old pages", 1, kSpace / 4 >> kPageShift);
  switch (kind) {
    case Old::kSmall: g_old_size = class_size(g_old_class); break;
    case Old::kLarge: g_old_size = pages << kPageShift; break;
    default: g_old_size = v::range("old size", 1, kSpace / 4);
  }
  V_ASSUME(g_old_size > 0 && g_old_size <= kSpace / 4);
  // A block of a class is aligned as its size is, up to a page.
  V_ASSUME(!small || (a & (std::min(g_old_size & -g_old_size, kPageSize) - 1)) == 0);
  if (!small) {
    V_ASSUME(a >= kPageSize);
    Span* span = new (&g_old_span.s) Span(Range{PageId(a >> kPageShift), Length(pages)});
    if (kind == Old::kSampled || kind == Old::kGuarded) {
      // As Span::Sample leaves it.
      auto* record = reinterpret_cast<SampledAllocation*>(g_record);
      span->sampled_ = 1;
      span->large_or_sampled_state_.num_pages = pages;
      span->large_or_sampled_state_.sampled_allocation = record;
      record->sampled_stack.allocated_size = g_old_size;
    }
  }
  char* r = static_cast<char*>(__v_region(a, g_old_size, 1, "old block"));
  g_old = reinterpret_cast<uintptr_t>(r);
  return r;
}
template <typename F>
static inline void realloc_any(Old kind, F f) {
  char* old = old_block(kind);
  size_t size = v::any<size_t>("new size");
  V_ASSUME(size > 0);
  request(size, 1);
  touched();
  // One class per size.
  V_ASSUME(kind != Old::kSmall || g_old_class == g_class || class_size(g_class) != g_old_size);
  size_t i = v::any<size_t>("i");
  V_ASSUME(i < size && i < g_old_size);
  char was = old[i];
  char* p = static_cast<char*>(f(old, size));
  if (p == nullptr) {
    V_ASSERT(g_blocks == 0 && g_freed == 0 && errno == ENOMEM, "a failure leaves the block alone");
    V_ASSERT(old[i] == was, "a failure leaves the contents alone");
    return;
  }
  if (g_blocks == 0) {
    V_ASSERT(p == old && g_freed == 0, "the block is kept");
    V_ASSERT(g_old_size >= size, "the block kept is large enough");
    V_ASSERT(old[i] == was, "the contents are kept");
    return;
  }
  got(p);
  V_ASSERT(g_freed == 1 && g_freed_ptr == g_old, "the old block is freed");
  V_ASSERT(p[i] == was, "the contents are copied");
}
V_HARNESS(realloc_small) { realloc_any(Old::kSmall, TCMallocInternalRealloc); }
V_HARNESS(realloc_large) { realloc_any(Old::kLarge, TCMallocInternalRealloc); }
V_HARNESS(realloc_sampled) { realloc_any(Old::kSampled, TCMallocInternalRealloc); }
V_HARNESS(realloc_guarded) { realloc_any(Old::kGuarded, TCMallocInternalRealloc); }
V_HARNESS(realloc_small0) { realloc_any(Old::kSmall, __alloc_token_0_realloc); }
V_HARNESS(realloc_large0) { realloc_any(Old::kLarge, __alloc_token_0_realloc); }
V_HARNESS(realloc_small1) { realloc_any(Old::kSmall, __alloc_token_1_realloc); }
V_HARNESS(realloc_large1) { realloc_any(Old::kLarge, __alloc_token_1_realloc); }
// Through reallocarray: the exact product or nothing.
template <typename F>
static inline void reallocarray_any(Old kind, F f) {
  size_t n = v::any<size_t>("n"), elem = v::any<size_t>("elem");
  u128 size = u128(n) * elem;
  if (size > kMost) {
    char* old = old_block(kind);
    request(size, 1, false);
    V_ASSERT(f(old, n, elem) == nullptr && errno == ENOMEM, "a product that does not fit fails");
    V_ASSERT(g_freed == 0, "a failure leaves the block alone");
    return;
  }
  // n * elem is the size: the rest is realloc.
}
template <typename F>
static inline void from_null(F f) {
  size_t n = v::any<size_t>("n"), elem = v::any<size_t>("elem");
  u128 size = u128(n) * elem;
  request(size, 1, size <= kMost);
  void* p = f(nullptr, n, elem);
  V_ASSERT(size <= kMost || p == nullptr, "a product that does not fit fails");
  got(p);
}
template <typename F>
static inline void to_zero(Old kind, F f) {
  char* old = old_block(kind);
  request(0, 1, false);
  V_ASSERT(f(old) == nullptr, "nothing is returned for size 0");
  V_ASSERT(g_freed == 1 && g_freed_ptr == g_old, "the old block is freed");
}
V_HARNESS(reallocarray_overflow) { reallocarray_any(Old::kSmall, TCMallocInternalReallocArray); }
V_HARNESS(reallocarray_overflow0) { reallocarray_any(Old::kSmall, __alloc_token_0_reallocarray); }
V_HARNESS(reallocarray_overflow1) { reallocarray_any(Old::kSmall, __alloc_token_1_reallocarray); }
V_HARNESS(reallocarray_null) { from_null(TCMallocInternalReallocArray); }
V_HARNESS(reallocarray_null0) { from_null(__alloc_token_0_reallocarray); }
V_HARNESS(reallocarray_null1) { from_null(__alloc_token_1_reallocarray); }
V_HARNESS(realloc_zero_small) { to_zero(Old::kSmall, [](char* p) { return TCMallocInternalRealloc(p, 0); }); }
V_HARNESS(realloc_zero_large) { to_zero(Old::kLarge, [](char* p) { return TCMallocInternalRealloc(p, 0); }); }
V_HARNESS(reallocarray_zero) {
  size_t n = v::any<size_t>("n");
  bool first = v::any_bool("first");
  to_zero(Old::kSmall, [&](char* p) { return TCMallocInternalReallocArray(p, first ? n : 0, first ? 0 : n); });
}
// reallocarray with one operand of the product known (both ways round): the
// product is exact, the rest as realloc.
#define BY(k, T)                                                                                                                     \
  V_HARNESS(reallocarray_##T##_by_##k) { realloc_any(Old::kSmall, [](char* p, size_t n) { V_ASSUME(n % k == 0); return REALLOCARRAY_##T(p, n / k, k); }); } \
  V_HARNESS(reallocarray_##T##_of_##k) { realloc_any(Old::kSmall, [](char* p, size_t n) { V_ASSUME(n % k == 0); return REALLOCARRAY_##T(p, k, n / k); }); }
#define REALLOCARRAY_t TCMallocInternalReallocArray
#define REALLOCARRAY_0 __alloc_token_0_reallocarray
#define REALLOCARRAY_1 __alloc_token_1_reallocarray
BY(1, t) BY(24, t) BY(8, 0) BY(8, 1)
