//@ property: C16
//@ variant: default:
//@ variant: inv:-DV_INV
//@ variant: numa!:-DTCMALLOC_INTERNAL_NUMA_AWARE -DV_INV
//@ variant: small!:-DTCMALLOC_INTERNAL_SMALL_BUT_SLOW -DV_INV
//@ opt: alloc_.* inv=1 prune=1
//@ assume: mmap, munmap, mprotect answer as specified (a fixed mapping that is not to replace anything yields exactly the hint or fails; memory mapped is disjoint from what is mapped); the pseudo-random generator yields any value (and, after yielding a null hint, one that is not: termination is not claimed); logging, naming and binding memory are no-ops
//@ assume: user-supplied address region factories are not covered (regions are the built-in ones)
//@ assume: 48-bit addresses (x86-64), no sanitizer address space
// C16: SystemAllocator hands out memory carrying the tag asked for.
#include "v.h"
#include "tcmalloc_invariants.h"
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <errno.h>
#include <array>
#include <atomic>
#include <optional>
#include <string>
#include <utility>
#undef errno
#define errno contract_errno
static int contract_errno;
#include "tcmalloc/common.h"
#include "tcmalloc/internal/logging.h"
#include "tcmalloc/internal/numa.h"
#include "tcmalloc/internal/page_size.h"
#include "tcmalloc/internal/strerror.h"
#include "tcmalloc/internal/util.h"
#include "tcmalloc/malloc_extension.h"
#include "absl/strings/str_format.h"
#undef TC_LOG
#define TC_LOG(...) (void)0

static constexpr uintptr_t kSpace = uintptr_t{1} << 47;
struct Area { uintptr_t p, n; };
static inline bool in(uintptr_t x, Area r) { return (x >= r.p) & (x - r.p < r.n); }
static inline bool apart(Area a, Area b) { return (a.n == 0) | (b.n == 0) | (a.p + a.n <= b.p) | (b.p + b.n <= a.p); }
static size_t g_page = 4096;
static bool g_noreplace;
static Area g_existing;         // memory mapped before
static Area g_mapped;           // memory mapped by the call and kept
#define g_maps vinv::ma_maps
static Area g_open;             // memory made accessible
static bool g_open_fails;
static inline void* contract_mmap(void* hint, size_t n, int prot, int flags, int, long) {
  uintptr_t h = reinterpret_cast<uintptr_t>(hint);
  if (hint == nullptr) {  // the seed
    V_ASSERT(prot == PROT_NONE, "nothing is accessible");
    return reinterpret_cast<void*>(v::range("seed", 1, kSpace >> 12) << 12);
  }
  V_ASSERT(n > 0 && n % 4096 == 0 && h % 4096 == 0, "whole pages are mapped");
  V_ASSERT(prot == PROT_NONE, "address space is only reserved");
  V_ASSERT((flags & MAP_FIXED) == 0, "mappings never replace anything");
  V_ASSERT(((flags & MAP_FIXED_NOREPLACE) != 0) == g_noreplace, "the flag is used when there is one");
  bool ok = v::any_bool("mmap");
  if (!ok) {
    if (g_noreplace || v::any_bool("mmap fails")) return MAP_FAILED;
    return reinterpret_cast<void*>(h + 4096);  // anywhere else
  }
  V_ASSUME(h < kSpace && n <= kSpace - h);
  V_ASSUME(apart({h, n}, g_existing));
  g_maps++;
  g_mapped = {h, n};
  return hint;
}
static inline int contract_munmap(void* p, size_t n) {
  uintptr_t h = reinterpret_cast<uintptr_t>(p);
  if (g_maps == 1 && h == g_mapped.p) {
    V_ASSERT(n == g_mapped.n, "all of the mapping is given up");
    g_mapped.n = 0;
  }
  return 0;
}
static inline int contract_mprotect(void* p, size_t n, int prot) {
  V_ASSERT(prot == (PROT_READ | PROT_WRITE), "memory is made accessible");
  if (g_open_fails) return -1;
  g_open = {reinterpret_cast<uintptr_t>(p), n};
  return 0;
}
static inline int contract_madvise(void* p, size_t n, int) {
  V_ASSERT(reinterpret_cast<uintptr_t>(p) == g_open.p && n == g_open.n, "only the memory handed out is advised");
  return 0;
}
static inline int contract_ok(...) { return 0; }
#define mmap contract_mmap
#define munmap contract_munmap
#define mprotect contract_mprotect
#define madvise contract_madvise
#define munlock(p, n) contract_ok()
#define prctl(...) contract_ok()
#define syscall(...) contract_ok()
#define private public
#include "tcmalloc/internal/system_allocator.h"
#undef private
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
static bool g_region_oom;
static int g_regions;
namespace tcmalloc {
AddressRegion::~AddressRegion() {}
namespace tcmalloc_internal {
size_t GetPageSize() { return g_page; }
const char* thread_safe_getenv(const char*) { return nullptr; }
absl::string_view MemoryTagToLabel(MemoryTag) { return "x"; }
namespace system_allocator_internal {
int MapFixedNoReplaceFlagAvailable() { return g_noreplace ? kMapFixedNoReplace : 0; }
}
}  // namespace tcmalloc_internal
}  // namespace tcmalloc
// Contract of ExponentialBiased::NextRandom.
static unsigned g_randoms;
extern "C" __attribute__((noinline, used)) uint64_t stub_random(uint64_t) {
  g_randoms++;
  return g_randoms % 2 ? v::range("random", 0, (uint64_t{1} << 48) - 1) : (uint64_t{1} << 48) - 1;
}
//@ noinline: _ZN8tcmalloc17tcmalloc_internal17ExponentialBiased10NextRandomEm
//@ stub: _ZN8tcmalloc17tcmalloc_internal17ExponentialBiased10NextRandomEm stub_random

static constexpr size_t kParts = kNormalPartitions;
struct ContractTopology {
  static constexpr size_t kNumPartitions = kNumaPartitions;
  bool aware;
  bool numa_aware() const { return kNumPartitions > 1 && aware; }
  NumaBindMode bind_mode() const { return NumaBindMode::kAdvisory; }
  uint64_t GetPartitionNodes(size_t) const { return 1; }
};
using Sys = SystemAllocator<ContractTopology, kParts>;
static ContractTopology g_topology;
static VObj<Sys::MmapRegion> g_region;
void* AddressRegionFactory::MallocInternal(size_t n) {
  V_ASSERT(n <= sizeof(g_region), "a region fits");
  g_regions++;
  return g_region_oom ? nullptr : &g_region.v;
}
static inline uintptr_t tag_of(uintptr_t a) { return a >> kTagShift & 7; }

// Every byte of a range lies in the address space and carries the tag.
static inline bool tagged(uintptr_t p, size_t n, MemoryTag tag) {
  return p < kSpace && n <= kSpace - p && n <= uintptr_t{1} << kTagShift && tag_of(p) == static_cast<uintptr_t>(tag) && tag_of(p + n - 1) == static_cast<uintptr_t>(tag);
}

#ifdef V_INV
// An allocation from an arbitrary state of the allocator.
static inline void alloc(MemoryTag tag, bool have_region, bool big, bool fits = false) {
  VObj<Sys> o;
  g_topology.aware = v::any_bool("numa aware");
  new (&o.v) Sys(g_topology, kMinMmapAlloc);
  Sys& s = o.v;
  g_noreplace = v::any_bool("noreplace");
  g_open_fails = v::any_bool("mprotect fails");
  g_region_oom = v::any_bool("no memory for a region");
  g_maps = g_regions = g_randoms = 0;
  g_open = {0, 0};
  g_mapped = {0, 0};
  s.rnd_ = v::any<uint64_t>("rnd");
  // Where the next mapping of each tag is tried: anything aligned to a page.
  auto next = [](uintptr_t& n) { n = v::range("next", 0, (kSpace >> 12) - 1) << 12; };
  for (auto& n : s.next_normal_addr_) next(n);
  for (auto& n : s.next_sampled_addr_) next(n);
  next(s.next_cold_addr_);
  next(s.next_metadata_addr_);
  // The region of the tag: some of its memory is left.
  VObj<Sys::MmapRegion> r;
  g_existing = {v::range("region", 1, kSpace >> 21) << 21, 0};
  size_t left = 0;
  if (have_region) {
    g_existing.n = kMinMmapAlloc;
    left = v::range("left", 0, kMinMmapAlloc >> 21) << 21;
    V_ASSUME(tagged(g_existing.p, g_existing.n, tag));
    new (&r.v) Sys::MmapRegion(g_existing.p, left, s.TagToHint(tag));
    AddressRegion* region = &r.v;
    switch (tag) {
      case MemoryTag::kNormalP0: s.normal_region_[0] = region; break;
      case MemoryTag::kNormalP1: s.normal_region_[kParts - 1] = region; break;
      case MemoryTag::kSampled: s.sampled_region_[0] = region; break;
      case MemoryTag::kSampledP1: s.sampled_region_[Sys::kSecurityPartitions - 1] = region; break;
      case MemoryTag::kCold: s.cold_region_ = region; break;
      case MemoryTag::kMetadata: s.metadata_region_ = region; break;
    }
  }
  size_t bytes = big ? v::any<size_t>("bytes") : v::range("bytes", 1, kMinMmapAlloc);
  size_t shift = v::range("align", 0, 63), align = v::any_bool("default") ? 0 : size_t{1} << shift;
  // Case split: what is left of the region has room for the request, or not.
  if (have_region) {
    uintptr_t end = g_existing.p + left, at = (end - (bytes + kHugePageSize - 1) / kHugePageSize * kHugePageSize) & ~(align == 0 ? 0 : align - 1);
    V_ASSUME(fits == (at >= g_existing.p && at <= end && align <= kMinMmapAlloc && !g_open_fails));
  }
  V_ASSUME(bytes > 0 && big == (bytes > kMinMmapAlloc || align > kMinMmapAlloc));
  uintptr_t x = v::range("x", 0, kSpace);
  AddressRange a = s.Allocate(bytes, align, tag);
  uintptr_t p = reinterpret_cast<uintptr_t>(a.ptr);
  V_ASSERT(g_maps <= 1 && g_regions <= 1, "address space is reserved once");
  if (a.ptr == nullptr) {
    V_ASSERT(a.bytes == 0, "nothing is handed out");
  } else {
    V_ASSERT(a.bytes >= bytes, "as much as asked for");
    V_ASSERT(align == 0 || (p & (align - 1)) == 0, "aligned as asked for");
    V_ASSERT(p % kHugePageSize == 0, "aligned to a hugepage");
    V_ASSERT(a.bytes == 0 || tagged(p, a.bytes, tag), "every byte handed out carries the tag");
    V_ASSERT(g_open.p == p && g_open.n == a.bytes, "the memory handed out is accessible");
    V_ASSERT(!in(x, {p, a.bytes}) || in(x, {g_existing.p, left}) || in(x, g_mapped), "the memory was free");
  }
  // What remains of the region is free and none of it handed out.
  if (have_region) {
    V_ASSERT(r.v.start_ == g_existing.p && r.v.free_size_ <= left, "the region gets smaller only");
    V_ASSERT(a.ptr == nullptr || !in(x, {p, a.bytes}) || !in(x, {r.v.start_, r.v.free_size_}), "memory handed out is not free any more");
  }
  if (g_regions == 1 && !g_region_oom) {
    auto* n = &g_region.v;
    V_ASSERT(n->start_ == g_mapped.p && n->free_size_ <= g_mapped.n, "the new region lies in the new mapping");
    V_ASSERT(a.ptr == nullptr || !in(x, {p, a.bytes}) || !in(x, {n->start_, n->free_size_}), "memory handed out is not free any more");
    V_ASSERT(g_mapped.n == 0 || tagged(g_mapped.p, g_mapped.n, tag), "the region carries the tag");
  }
}
#define ALLOC(tag) \
  V_HARNESS(alloc_##tag##_region) { alloc(MemoryTag::tag, true, false, true); } \
  V_HARNESS(alloc_##tag##_other) { alloc(MemoryTag::tag, true, false, false); } \
  V_HARNESS(alloc_##tag##_fresh) { alloc(MemoryTag::tag, false, false); } \
  V_HARNESS(alloc_##tag##_big) { alloc(MemoryTag::tag, false, true); }
ALLOC(kNormalP0) ALLOC(kSampled) ALLOC(kCold) ALLOC(kMetadata)
#ifdef TCMALLOC_INTERNAL_NUMA_AWARE
ALLOC(kNormalP1)
#else
ALLOC(kNormalP1) ALLOC(kSampledP1)
#endif
#endif
