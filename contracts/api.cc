//@ property: C17
//@ variant: default:
//@ variant: large!:-DTCMALLOC_INTERNAL_256K_PAGES
//@ variant: numa!:-DTCMALLOC_INTERNAL_NUMA_AWARE
//@ opt: .* lia=10
//@ noinline: _ZNK8tcmalloc17tcmalloc_internal6PageId10start_addrEv
//@ stub: _ZNK8tcmalloc17tcmalloc_internal6PageId10start_addrEv stub_start_addr
//@ assume: the heap is initialised (the first call of the process goes through the same functions with size class 0)
//@ assume: the size class map, the per-CPU cache, the page allocator, sampling, hooks and the page map are replaced by their contracts (C02, C05, C15): a class holds at least the size asked for and is a multiple of the alignment; blocks are as large as their class and aligned as asked for; a size class serves every size up to kMaxSize with an alignment of at most a page; the page allocator fails for more pages than the address space has
// C17: the entry points of tcmalloc.cc, included textually; every callee below
// the size arithmetic is replaced by its contract.
#include "api_common.h"

static inline size_t any_size() { return v::any<size_t>("size"); }
static inline size_t any_align() { return size_t{1} << v::range("align", 0, 63); }

#define ALLOC(name, ml, call)                      \
  V_HARNESS(name) {                                \
    size_t size = any_size();                      \
    request(size, 1);                              \
    got(call, ml);                                 \
  }
#define ALIGNED(name, ml, call)                    \
  V_HARNESS(name) {                                \
    size_t size = any_size(), align = any_align(); \
    request(size, align);                          \
    got(call, ml);                                 \
  }
#define SIZED(name, ml, P, N, call)                \
  V_HARNESS(name) {                                \
    size_t size = any_size();                      \
    request(size, 1);                              \
    auto r = call;                                 \
    got_sized(r.P, r.N, ml);                       \
  }
#define SIZED_ALIGNED(name, ml, P, N, call)        \
  V_HARNESS(name) {                                \
    size_t size = any_size(), align = any_align(); \
    request(size, align);                          \
    auto r = call;                                 \
    got_sized(r.P, r.N, ml);                       \
  }
static inline std::align_val_t av(size_t a) { return static_cast<std::align_val_t>(a); }
static inline hot_cold_t hc() { return static_cast<hot_cold_t>(v::any<uint8_t>("hot cold")); }
ALLOC(malloc, true, TCMallocInternalMalloc(size))
ALLOC(new_, false, TCMallocInternalNew(size))
ALLOC(new_nothrow, false, TCMallocInternalNewNothrow(size, std::nothrow))
ALLOC(new_hot_cold, false, TCMallocInternalNewHotCold(size, hc()))
ALIGNED(memalign, true, TCMallocInternalMemalign(align, size))
ALIGNED(new_aligned, false, TCMallocInternalNewAligned(size, av(align)))
ALIGNED(new_aligned_nothrow, false, TCMallocInternalNewAlignedNothrow(size, av(align), std::nothrow))
SIZED(sized_new, false, p, n, TCMallocInternalSizeReturningNew(size))
SIZED(sized_new_nothrow, false, p, n, tcmalloc_size_returning_operator_new_nothrow(size))
SIZED(sized_new_hot_cold, false, p, n, __size_returning_new_hot_cold(size, hc()))
SIZED(alloc_at_least, true, ptr, size, TCMallocInternalAllocAtLeast(size))
SIZED_ALIGNED(sized_new_aligned, false, p, n, TCMallocInternalSizeReturningNewAligned(size, av(align)))
SIZED_ALIGNED(sized_new_aligned_nothrow, false, p, n, tcmalloc_size_returning_operator_new_aligned_nothrow(size, av(align)))
SIZED_ALIGNED(sized_new_aligned_hot_cold, false, p, n, __size_returning_new_aligned_hot_cold(size, av(align), hc()))
SIZED(fallback_alloc_at_least, true, ptr, size, fallback_alloc_at_least(size))
V_HARNESS(fallback_aligned_alloc_at_least) {
  size_t size = any_size(), align = any_align();
  request(size, align);
  auto r = fallback_aligned_alloc_at_least(align, size);
  got_sized(r.ptr, r.size);
}
// aligned_alloc, posix_memalign, aligned_alloc_at_least: any alignment.
static inline bool valid(size_t a) { return (a != 0) & ((a & (a - 1)) == 0); }
template <typename F>
static inline void aligned_alloc_any(F f) {
  size_t size = any_size(), align = v::any<size_t>("any align");
  request(size, align, valid(align));
  void* p = f(align, size);
  if (valid(align)) return got(p);
  V_ASSERT(p == nullptr && errno == EINVAL, "an invalid alignment is rejected");
}
template <typename F>
static inline void posix_memalign_any(F f) {
  size_t size = any_size(), align = v::any<size_t>("any align");
  bool ok = valid(align) && align >= sizeof(void*);
  request(size, align, ok);
  char none;
  void* p = &none;
  int r = f(&p, align, size);
  V_ASSERT(ok || r == EINVAL, "an invalid alignment is rejected");
  if (r != 0) {
    V_ASSERT(p == &none, "a failure leaves the result alone");
    V_ASSERT(!ok || r == ENOMEM, "only for want of memory does a valid request fail");
    return got(nullptr, false);
  }
  got(p, false);
}
V_HARNESS(aligned_alloc) { aligned_alloc_any(TCMallocInternalAlignedAlloc); }
V_HARNESS(aligned_alloc0) { aligned_alloc_any(__alloc_token_0_aligned_alloc); }
V_HARNESS(aligned_alloc1) { aligned_alloc_any(__alloc_token_1_aligned_alloc); }
V_HARNESS(posix_memalign) { posix_memalign_any(TCMallocInternalPosixMemalign); }
V_HARNESS(posix_memalign0) { posix_memalign_any(__alloc_token_0_posix_memalign); }
V_HARNESS(posix_memalign1) { posix_memalign_any(__alloc_token_1_posix_memalign); }
V_HARNESS(aligned_alloc_at_least) {
  size_t size = any_size(), align = v::any<size_t>("any align");
  request(size, align, valid(align));
  auto r = TCMallocInternalAlignedAllocAtLeast(align, size);
  if (valid(align)) return got_sized(r.ptr, r.size);
  V_ASSERT(r.ptr == nullptr && r.size == 0 && errno == EINVAL, "an invalid alignment is rejected");
}
// valloc and pvalloc: the system page is the alignment; pvalloc's size is the
// least multiple of it that holds the size asked for.
template <typename F>
static inline void pvalloc_any(F f) {
  size_t size = any_size();
  u128 up = ((u128(size) + g_page_size - 1) / g_page_size) * g_page_size;
  if (size == 0) up = g_page_size;
  bool fits = up <= kMost;
  request(up, g_page_size, fits);
  void* p = f(size);
  V_ASSERT(fits || p == nullptr, "a size that cannot be rounded up fails");
  got(p);
}
template <typename F>
static inline void valloc_any(F f) {
  size_t size = any_size();
  request(size, g_page_size);
  got(f(size));
}
#define PER_PAGE_SIZE(name, call)                    \
  V_HARNESS(name##_4k) { g_page_size = 4096; call; } \
  V_HARNESS(name##_64k) { g_page_size = 65536; call; }
PER_PAGE_SIZE(pvalloc, pvalloc_any(TCMallocInternalPvalloc))
PER_PAGE_SIZE(pvalloc0, pvalloc_any(__alloc_token_0_pvalloc))
PER_PAGE_SIZE(pvalloc1, pvalloc_any(__alloc_token_1_pvalloc))
PER_PAGE_SIZE(valloc, valloc_any(TCMallocInternalValloc))
PER_PAGE_SIZE(valloc0, valloc_any(__alloc_token_0_valloc))
PER_PAGE_SIZE(valloc1, valloc_any(__alloc_token_1_valloc))
// Variants for a token.
ALLOC(malloc0, true, __alloc_token_0_malloc(size))
ALLOC(malloc1, true, __alloc_token_1_malloc(size))
ALIGNED(memalign0, true, __alloc_token_0_memalign(align, size))
ALIGNED(memalign1, true, __alloc_token_1_memalign(align, size))

// calloc: the exact product is allocated and cleared, or the request fails.
template <typename F>
static inline void calloc_any(F f) {
  size_t n = v::any<size_t>("n"), elem = v::any<size_t>("elem");
  u128 size = u128(n) * elem;
  request(size, 1, size <= kMost);
  touched();
  void* p = f(n, elem);
  V_ASSERT(size <= kMost || p == nullptr, "a product that does not fit fails");
  got(p);
  if (p == nullptr) return;
  size_t i = v::any<size_t>("i");
  V_ASSUME(i < size);
  V_ASSERT(static_cast<char*>(p)[i] == 0, "every byte is cleared");
}
V_HARNESS(calloc) { calloc_any(TCMallocInternalCalloc); }
V_HARNESS(calloc0) { calloc_any(__alloc_token_0_calloc); }
V_HARNESS(calloc1) { calloc_any(__alloc_token_1_calloc); }
// MultiplyOverflow.
V_HARNESS(multiply) {
  size_t a = v::any<size_t>("a"), b = v::any<size_t>("b"), out;
  u128 p = u128(a) * b;
  bool over = MultiplyOverflow(a, b, &out);
  V_ASSERT(over == (p > kMost), "an overflow is detected");
  V_ASSERT(over || out == p, "the product is exact");
}
// The size estimates: never less than the size; 0 where it does not fit.
static inline void estimate(size_t size, size_t r) {
  V_ASSERT(r >= size || (r == 0 && size > kMost - kPageSize), "the estimate is no less than the size");
}
V_HARNESS(nallocx) {
  size_t size = any_size();
  int flags = v::range("flags", 0, 63);
  request(size, flags == 0 ? 1 : size_t{1} << flags, false);
  estimate(size, nallocx(size, flags));
}
V_HARNESS(estimated) {
  size_t size = any_size();
  request(size, 1, false);
  estimate(size, TCMalloc_Internal_GetEstimatedAllocatedSize(size));
}

