//@ property: C13
//@ variant: default:
//@ variant: small!:-DTCMALLOC_INTERNAL_SMALL_BUT_SLOW
//@ opt: .* lia=10
//@ assume: the system allocator is replaced by its contract (memory aligned to the larger of a page and the alignment asked for, at least as large as asked for, disjoint from everything handed out before, or none)
//@ assume: the free list has at most 2 blocks of any size and address (3 at thorough), or is full; alignments from 1 to 1 MiB
// C13: Arena::Alloc from an arbitrary well-formed state.  A ghost count says of
// an arbitrary byte how often it is available; every step preserves
//   available before + obtained from the system = available after + returned.
#include "v.h"
#include <algorithm>
#include <atomic>
#include <new>
#include "tcmalloc/common.h"
#include "tcmalloc/internal/allocation_guard.h"
#include "tcmalloc/internal/memory_tag.h"
#include "tcmalloc/internal/system_allocator.h"
#define private public
#include "tcmalloc/arena.h"
#undef private
#include "tcmalloc/parameters.h"
#include "tcmalloc/span.h"
#include "tcmalloc/static_vars.h"

namespace tcmalloc::tcmalloc_internal {
// The contracts of the callees.
static constexpr uintptr_t kSpace = uintptr_t{1} << 47;
static size_t g_bytes, g_align;   // the request
static int g_sys_calls;
static bool g_oom;
static uintptr_t g_sys, g_sys_size;
struct ContractSystem {
  AddressRange Allocate(size_t bytes, size_t alignment, MemoryTag tag) {
    g_sys_calls++;
    V_ASSERT(g_sys_calls == 1, "the system is asked once");
    V_ASSERT(bytes >= g_bytes, "enough is asked for");
    V_ASSERT(alignment >= g_align && alignment % g_align == 0, "properly aligned memory is asked for");
    V_ASSERT(tag == MemoryTag::kMetadata, "metadata memory is asked for");
    V_ASSERT(!g_oom, "only memory there is not ends the process");
    V_ASSUME(g_sys % (alignment > kPageSize ? alignment : kPageSize) == 0);
    V_ASSUME(g_sys_size >= bytes);
    return {reinterpret_cast<void*>(g_sys), g_sys_size};
  }
  int backed = 0;
  void Back(void* p, size_t n) {
    V_ASSERT(reinterpret_cast<uintptr_t>(p) == g_sys && n == g_sys_size, "only the memory obtained is populated");
  }
};
struct ContractGlobals {
  ContractSystem s;
  ContractSystem& system_allocator() { return s; }
};
static ContractGlobals contract_globals;
struct ContractParameters {
  static bool back_small_allocations() { return v::any_bool("back"); }
  static int32_t back_size_threshold_bytes() { return v::any<int32_t>("threshold"); }
};
}  // namespace tcmalloc::tcmalloc_internal
#define tc_globals contract_globals
#define Parameters ContractParameters
#include "tcmalloc/arena.cc"
#undef tc_globals
#undef Parameters
using namespace tcmalloc::tcmalloc_internal;

struct Range_ { uintptr_t p, n; };
static inline bool in(uintptr_t x, Range_ r) { return (x >= r.p) & (x - r.p < r.n); }
static inline bool apart(Range_ a, Range_ b) { return (a.n == 0) | (b.n == 0) | (a.p + a.n <= b.p) | (b.p + b.n <= a.p); }
#ifdef V_THOROUGH
static constexpr int kMost = 3;
#else
static constexpr int kMost = 2;
#endif
static constexpr size_t kMinBlock = std::max(sizeof(Span), sizeof(Arena::Block));

static inline Range_ memory(size_t size, const char* nm) {
  return {reinterpret_cast<uintptr_t>(__v_region(v::range(nm, 1, kSpace / 8) * 8, size, 8, nm)), size};
}
static inline uintptr_t any_addr(const char* nm) { return v::range(nm, 1, kSpace / 8) * 8; }

// Ghost view of a state: the current area and the blocks of the free list.
struct View {
  size_t avail;      // how often byte x is available
  size_t bytes;      // available bytes
  size_t list_bytes;
  int blocks;
};
static inline View view(Arena& a, uintptr_t x, int most) {
  View r = {};
  r.avail = in(x, {reinterpret_cast<uintptr_t>(a.free_area_), a.free_avail_});
  r.bytes = a.free_avail_;
  Arena::Block* b = a.freelist_;
  for (int i = 0; i < most; i++) {
    if (b == nullptr) break;
    r.avail += in(x, {reinterpret_cast<uintptr_t>(b), b->size});
    r.bytes += b->size;
    r.list_bytes += b->size;
    V_ASSERT(b->size >= sizeof(Arena::Block), "a listed block holds its header");
    V_ASSERT(reinterpret_cast<uintptr_t>(b) % alignof(Arena::Block) == 0, "a listed block is aligned for its header");
    r.blocks++;
    b = b->next;
  }
  V_ASSERT(b == nullptr, "the free list is well formed");
  return r;
}
static inline void alloc(int blocks, size_t mis, size_t align, bool full, bool some, int fits = -1) {
  VObj<Arena> a;
  new (&a.v) Arena();
  g_sys_calls = 0;
  g_oom = false;
  Range_ mem[kMost + 2];
  // Free blocks.
  size_t list = 0;
  Arena::Block* next = nullptr;
  for (int i = 0; i < blocks; i++) {
    size_t n = v::range("block", kMinBlock, kSpace);
    uintptr_t p = any_addr("at");
    V_ASSUME(p + n <= kSpace);
    __v_region(p, 16, 8, "block");
    mem[i] = {p, n};
    Arena::Block* b = reinterpret_cast<Arena::Block*>(p);
    b->next = next;
    b->size = n;
    next = b;
    list += n;
  }
  a->freelist_ = next;
  a->freelist_bytes_unallocated_ = list;
  a->freelist_blocks_ = full ? Arena::kMaxFreelistBlocks : blocks;
  // The current area, somewhere inside memory of the arena.
  uintptr_t p = any_addr("area");
  size_t n = some ? v::range("avail", 0, kSpace) : 0;
  V_ASSUME(p + mis + n <= kSpace);
  if (some) __v_region(p, 32, 8, "area");
  mem[blocks] = some ? Range_{p, n + mis} : Range_{0, 0};
  a->free_area_ = some ? reinterpret_cast<char*>(p + mis) : nullptr;
  a->free_avail_ = n;
  // Memory the system hands out.
  g_sys = v::range("system", 1, kSpace / 4096) * 4096;
  g_sys_size = v::range("system size", 1, kSpace);
  V_ASSUME(g_sys + g_sys_size <= kSpace);
  mem[blocks + 1] = {g_sys, g_sys_size};
  for (int i = 0; i < blocks + 2; i++)
    for (int j = 0; j < i; j++) V_ASSUME(apart(mem[i], mem[j]));
  size_t allocated = v::range("allocated", 0, kSpace), lost = v::range("lost", 0, kSpace);
  size_t nonres = v::any<size_t>("nonresident");
  uint16_t nblocks = v::range("blocks", 0, 65534);
  a->bytes_allocated_ = allocated;
  a->bytes_unavailable_ = lost;
  a->bytes_nonresident_ = nonres;
  a->blocks_ = nblocks;

  g_bytes = v::range("bytes", 0, kSpace);
  g_align = align;
  // A complete case split: the last block (0: none, blocks + 1: the current
  // area) with room for an aligned block.
  auto room = [&](uintptr_t at, size_t size) { return size >= ((-at) & (align - 1)) + g_bytes; };
  if (fits >= 0) {
    V_ASSUME((fits == blocks + 1) == room(p + mis, n));
    if (fits <= blocks) {
      for (int i = blocks; i > fits; i--) V_ASSUME(!room(mem[i - 1].p, mem[i - 1].n));
      if (fits != 0) V_ASSUME(room(mem[fits - 1].p, mem[fits - 1].n));
    }
  }
  uintptr_t x = v::range("x", 0, kSpace + 10);
  size_t before = in(x, {p + mis, n});
  for (int i = 0; i < blocks; i++) before += in(x, mem[i]);
  uintptr_t r = reinterpret_cast<uintptr_t>(a->Alloc(g_bytes, static_cast<std::align_val_t>(align)));

  bool sys = g_sys_calls == 1;
  V_ASSERT(r % align == 0, "aligned as requested");
  View w = view(*a, x, blocks + 1);
  size_t got = in(x, {r, g_bytes}), obtained = sys && in(x, mem[blocks + 1]);
  V_ASSERT(got <= before + obtained, "the block lies in memory that was available or just obtained");
  V_ASSERT(w.avail + got <= before + obtained, "memory handed out is not available any more, and no memory is available twice");
  ArenaStats s = a->stats();
  size_t total = sys ? g_sys_size : 0;
  V_ASSERT(s.bytes_allocated + s.bytes_unallocated + s.bytes_unavailable == allocated + lost + n + list + total,
           "allocated, unallocated and unavailable bytes add up to what was obtained");
  V_ASSERT(s.bytes_unallocated == w.bytes, "unallocated bytes are those available");
  V_ASSERT(a->freelist_bytes_unallocated_ == w.list_bytes, "bytes on the free list");
  V_ASSERT(s.bytes_unavailable >= lost, "bytes lost stay lost");
  V_ASSERT(s.bytes_allocated >= allocated + g_bytes && s.bytes_allocated < allocated + g_bytes + align, "allocated bytes: the request and its alignment");
  V_ASSERT(s.blocks == nblocks + sys, "the block count is exact");
  V_ASSERT(s.freelist_blocks - (full ? Arena::kMaxFreelistBlocks - blocks : 0) == static_cast<size_t>(w.blocks), "the count of listed blocks is exact");
  V_ASSERT(a->freelist_blocks_ <= Arena::kMaxFreelistBlocks, "the free list is bounded");
  V_ASSERT(s.bytes_nonresident == nonres, "non-resident bytes are not touched");
}
#define ALLOC(name, ...) \
  V_HARNESS(alloc_##name) { alloc(__VA_ARGS__); }
#ifdef V_THOROUGH
#define ALLOC_MORE ALLOC
#else
#define ALLOC_MORE(...)
#endif
#define ALLOC2(align, mis, fits) ALLOC(align##_2_##fits, 2, mis, align, false, true, fits)
#define ALLOC3(align, mis, fits) ALLOC_MORE(align##_3_##fits, 3, mis, align, false, true, fits)
#define ALLOCS(align, mis) \
  ALLOC(align##_0, 0, mis, align, false, true) \
  ALLOC(align##_1, 1, mis, align, false, true) \
  ALLOC2(align, mis, 0) ALLOC2(align, mis, 1) ALLOC2(align, mis, 2) ALLOC2(align, mis, 3) \
  ALLOC3(align, mis, 0) ALLOC3(align, mis, 1) ALLOC3(align, mis, 2) ALLOC3(align, mis, 3) \
  ALLOC3(align, mis, 4) \
  ALLOC(align##_full, 1, mis, align, true, true) \
  ALLOC(align##_none, 1, 0, align, false, false)
ALLOCS(1, 0)
ALLOCS(8, 5)
ALLOCS(16, 0)
ALLOCS(64, 1)
ALLOCS(8192, 4)
ALLOCS(1048576, 0)
V_HARNESS(initial) {
  VObj<Arena> a;
  new (&a.v) Arena();
  ArenaStats s = a->stats();
  V_ASSERT(s.bytes_allocated == 0 && s.bytes_unallocated == 0 && s.bytes_unavailable == 0 && s.blocks == 0 && s.freelist_blocks == 0 && s.bytes_nonresident == 0, "nothing yet");
  V_ASSERT(a->free_area_ == nullptr && a->freelist_ == nullptr, "no memory yet");
}
V_HARNESS(update) {
  VObj<Arena> a;
  new (&a.v) Arena();
  a->bytes_allocated_ = v::range("allocated", 0, kSpace);
  a->bytes_nonresident_ = v::range("nonresident", 0, kSpace);
  a->free_avail_ = v::range("avail", 0, kSpace);
  a->bytes_unavailable_ = v::range("lost", 0, kSpace);
  ArenaStats s = a->stats();
  int64_t da = v::any<int64_t>("da"), dn = v::any<int64_t>("dn");
  int64_t lim = kSpace;
  V_ASSUME(da >= -lim && da <= lim && dn >= -lim && dn <= lim);
  V_ASSUME((int64_t)s.bytes_allocated + da >= 0 && (int64_t)s.bytes_nonresident + dn >= 0);
  a->UpdateAllocatedAndNonresident(da, dn);
  ArenaStats t = a->stats();
  V_ASSERT(t.bytes_allocated == s.bytes_allocated + da, "allocated bytes");
  V_ASSERT(t.bytes_nonresident == s.bytes_nonresident + dn, "non-resident bytes");
  V_ASSERT(t.bytes_unallocated == s.bytes_unallocated && t.bytes_unavailable == s.bytes_unavailable, "nothing else changes");
}
