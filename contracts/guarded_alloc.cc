//@ property: C24
//@ variant: default:
//@ variant: ndebug:-DNDEBUG
//@ stub: _ZN8tcmalloc17tcmalloc_internal17ExponentialBiased10NextRandomEm stub_random
//@ noinline: _ZN8tcmalloc17tcmalloc_internal17ExponentialBiased10NextRandomEm
//@ stub: _ZN8tcmalloc17tcmalloc_internalL14ForceTouchPageEPv stub_touch
//@ noinline: _ZN8tcmalloc17tcmalloc_internalL14ForceTouchPageEPv
//@ keep: stub_random stub_touch
//@ stub: _ZN8tcmalloc17tcmalloc_internal20GuardedPageAllocator15ReserveFreeSlotEv stub_reserve
//@ stub: _ZN8tcmalloc17tcmalloc_internal20GuardedPageAllocator8FreeSlotEm stub_free
//@ noinline: _ZN8tcmalloc17tcmalloc_internal20GuardedPageAllocator15ReserveFreeSlotEv
//@ noinline: _ZN8tcmalloc17tcmalloc_internal20GuardedPageAllocator8FreeSlotEm
//@ stub: _ZNK8tcmalloc17tcmalloc_internal20GuardedPageAllocator10AddrToSlotEm stub_slot
//@ noinline: _ZNK8tcmalloc17tcmalloc_internal20GuardedPageAllocator10AddrToSlotEm
//@ keep: stub_slot stub_reserve stub_free
//@ opt: .* prune=1
//@ assume: mprotect/munmap, SystemAllocator::MmapAligned, PageMap::Ensure and Arena::Alloc act as specified; the pseudo-random generator and the stack trace filter are arbitrary; stack traces of two frames
// C24: GuardedPageAllocator::Allocate and Deallocate, on the contracts of
// ReserveFreeSlot, FreeSlot and AddrToSlot (guarded.cc).
#define V_ON_TOUCH
#include "guarded_common.h"
namespace tcmalloc::tcmalloc_internal {
// ---- Allocate, Deallocate on the contracts of ReserveFreeSlot and FreeSlot.
static ssize_t g_slot;
static int g_reserved, g_released;
static uint8_t* g_page_mem;
static uintptr_t g_page;
extern "C" __attribute__((noinline, used)) ssize_t stub_reserve(G*) {
  g_reserved++;
  return g_slot;
}
extern "C" __attribute__((noinline, used)) void stub_free(G*, size_t slot) {
  V_ASSERT(slot == static_cast<size_t>(g_slot), "the slot of the allocation is given back");
  g_released++;
}
extern "C" __attribute__((noinline, used)) size_t stub_slot(const G*, uintptr_t addr) {
  V_ASSERT(addr == g_page, "the page of the slot");
  return g_slot;
}
// 0xcd * (slot / 2) in bytes; only used for even slots.
static inline uint8_t magic(size_t slot) { return static_cast<uint8_t>(0xcd * (slot / 2)); }
static inline size_t smaller(size_t a, size_t b) { return a < b ? a : b; }
static inline size_t larger(size_t a, size_t b) { return a > b ? a : b; }

static inline void any_slot(size_t ps, bool even) {
  any_geometry(ps);
  // Without loss of generality the page of the slot is at kPage: nothing
  // depends on the address but its alignment.
  constexpr uintptr_t kPage = uintptr_t{1} << 44;
  g_reserved = g_released = g_touched = 0;
  size_t s = v::range("slot", 0, G::kGpaMaxPages / 2 - 1) * 2 + (even ? 0 : 1);
  V_ASSUME(s < g_total);
  g_slot = s;
  g_page = kPage;
  g_first = kPage - 2 * ps * s;
  g_base = g_first - ps;
  g->pages_base_addr_ = g_base;
  g->pages_end_addr_ = g_base + g_len;
  g->first_page_addr_ = g_first;
  g_page_mem = static_cast<uint8_t*>(__v_region(g_page, ps, 1, "page"));
  g_meta.havoc("metadata");
}
static VObj<StackTrace> g_trace;
template <size_t PS> static inline void allocate(bool even, size_t align) {
  any_slot(PS, even);
  if (v::any_bool("no slot")) g_slot = -1;
  size_t s = g_slot;
  size_t size = v::range("size", 0, PS);
  g_trace.havoc("trace");
  g_trace->depth = 2;
#ifdef NDEBUG
  g_prot_fails = v::any_bool("mprotect fails");
#endif
  auto& d = g_meta.v.m[g_slot < 0 ? 0 : s];
  if (g_slot >= 0) d.write_overflow_detected = false;  // a slot in which one was detected is not reused (the process ends)
  int64_t ok0 = g->successful_allocations_.value();
  GuardedAllocWithStatus r = g->Allocate(size, static_cast<std::align_val_t>(align), g_trace.v);
  const uintptr_t p = reinterpret_cast<uintptr_t>(r.alloc);
  V_ASSERT(g_reserved == 1, "one slot is reserved");
  if (g_slot < 0 || (g_prot_fails && size > 0)) {
    V_ASSERT(p == 0 && r.status != Profile::Sample::GuardedStatus::Guarded, "no allocation");
    V_ASSERT(g_released == (g_slot >= 0), "the slot is given back");
    V_ASSERT(g_slot < 0 || g->successful_allocations_.value() == ok0 - 1, "it does not count as a success");
    return;
  }
  V_ASSERT(g_released == 0 && r.status == Profile::Sample::GuardedStatus::Guarded, "the slot is in use");
  V_ASSERT(p >= g_page && size <= g_page + PS - p, "the allocation lies in the page of its slot");
  V_ASSERT(align == 0 || p % align == 0, "it is aligned as asked for");
  V_ASSERT(size < 2 || p % 2 == 0, "natural alignment");
  V_ASSERT(size < 3 || p % 4 == 0, "natural alignment");
  V_ASSERT(size < 5 || p % 8 == 0, "natural alignment");
  V_ASSERT(size < 9 || p % 16 == 0, "natural alignment");
  if (size == 0) {
    V_ASSERT(g_protects == 0, "the page of an empty allocation stays inaccessible");
  } else {
    V_ASSERT(g_protects == 1 && g_prot_addr == g_page && g_prot_len == PS && g_prot == (PROT_READ | PROT_WRITE), "exactly its page becomes accessible");
  }
  V_ASSERT(d.requested_size == size && d.allocation_start == p && d.dealloc_count.load() == 0 && d.dealloc_trace.depth == 0, "the allocation is recorded");
  V_ASSERT(d.alloc_trace.depth == 2 && d.alloc_trace.stack[0] == g_trace->stack[0] && d.alloc_trace.stack[1] == g_trace->stack[1], "so is its stack trace");
  V_ASSERT(g->GetRequestedSize(r.alloc) == size || p == g_page + PS, "the size is found from the address");
  if (size > 0) V_ASSERT(g->PointerIsCorrectlyAligned(r.alloc), "the address is found correct");
  if (even && size > 0) {
    uintptr_t end = p + size, q = v::range("byte", 0, kSpace);
    V_ASSERT(g_page + PS - end < larger(larger(align, 1), smaller(16, 2 * size - 1)), "only alignment keeps it from the guard page");
    if (q >= end && q < g_page + PS && q - end < 32) V_ASSERT(g_page_mem[q - g_page] == magic(s), "the bytes past the end are marked");
  } else {
    V_ASSERT(p == g_page, "it starts at the start of the page");
  }
}
// mode 0: a live allocation whose marked bytes are intact; 1: one of them was
// overwritten; 2: freed before; 3: an address that is not the start.
static bool g_expect_touch;
static inline void contract_on_touch() {
  V_ASSERT(g_expect_touch && g_released == 0, "an error is reported only when there is one, and the slot is not reused");
  V_COVER(true, "error reported");
}
// left: bytes between the end of the allocation and the end of the page (32: at
// least 32; odd slots: any).
template <size_t PS> static inline void deallocate(bool even, int mode, size_t left) {
  any_slot(PS, even);
  const size_t s = g_slot;
  auto& d = g_meta.v.m[s];
  const size_t size = v::range("size", 0, PS);
  const uintptr_t p = !even || size == 0 ? g_page : left < 32 ? g_page + PS - left - size : g_page + v::range("start", 0, PS - 1);
  V_ASSUME(p >= g_page && p < g_page + PS && size <= g_page + PS - p);
  if (even && left == 32) V_ASSUME(size == 0 || g_page + PS - p - size >= 32);
  if (even && left < 32) V_ASSUME(size != 0);
  d.requested_size = size;
  d.allocation_start = p;
  d.alloc_trace.depth = v::range("frames", 0, kMaxStackDepth);
  d.dealloc_count.store(mode == 2 ? v::range("frees", 1, 1000) : 0);
  d.write_overflow_detected = false;
  const uintptr_t end = p + size, mark_end = end + left;
  const uintptr_t q = v::range("byte", 0, kSpace);
  bool hit = false;
  if (even && size > 0 && mode == 1) {
    V_ASSUME(q >= end && q < mark_end);
    V_ASSUME(g_page_mem[q - g_page] != magic(s));
    hit = true;
  } else if (even) {
    for (size_t i = 0; i < left; i++) {
      if (size > 0) V_ASSUME(g_page_mem[end + i - g_page] == magic(s));
    }
  }
  uintptr_t f = p;
  if (mode == 3) {
    f = g_page + v::range("freed", 0, PS - 1);
    V_ASSUME(f != p);
    g_may_report = true;
  }
  g_may_touch = true;
  g_expect_touch = hit || mode == 2;
  if ((g_expect_touch || mode == 3) && v::any_bool("idle")) return;  // (does not return otherwise)
  g->Deallocate(reinterpret_cast<void*>(f));
  V_ASSERT(!g_expect_touch, "an overflow of the marked bytes or a second free is reported");
  V_ASSERT(mode != 3, "freeing another address is reported");
  V_ASSERT(g_released == 1, "the slot is given back");
  if (size == 0) {
    V_ASSERT(g_protects == 0, "the page of an empty allocation stays inaccessible");
  } else {
    V_ASSERT(g_protects == 1 && g_prot_addr == g_page && g_prot_len == PS && g_prot == PROT_NONE, "exactly its page becomes inaccessible");
  }
  V_ASSERT(d.dealloc_count.load() == 1, "the free is recorded");
}
// What is reported for an address of the area.
static inline void error_type() {
  any_slot(8192, v::any_bool("even"));
  auto& d = g_meta.v.m[g_slot];
  const size_t size = v::range("size", 0, 8192);
  const uintptr_t p = g_page + v::range("start", 0, 8192);
  V_ASSUME(size <= g_page + 8192 - p);
  d.requested_size = size;
  d.allocation_start = p;
  const int frees = v::range("frees", 0, 3);
  d.dealloc_count.store(frees);
  d.write_overflow_detected = v::any_bool("overflow");
  const uintptr_t a = g_page - 4096 + v::range("addr", 0, 16383);  // nearest to this slot
  V_ASSUME(a >= g_base && a < g_base + g_len);
  GuardedAllocationsStackTrace *at, *dt;
  auto r = g->GetStackTraces(reinterpret_cast<void*>(a), &at, &dt);
  V_ASSERT(at == &d.alloc_trace && dt == &d.dealloc_trace, "the traces of the nearest slot");
  using E = GuardedAllocationsErrorType;
  if (frees >= 2) V_ASSERT(r == E::kDoubleFree, "double free");
  else if (d.write_overflow_detected) V_ASSERT(r == E::kBufferOverflowOnDealloc, "overflow found on free");
  else if (frees == 1) V_ASSERT(r == E::kUseAfterFree, "use after free");
  else if (a < p) V_ASSERT(r == E::kBufferUnderflow, "underflow");
  else if (a >= p + size) V_ASSERT(r == E::kBufferOverflow, "overflow");
  else V_ASSERT(r == E::kUnknown, "not an error of this allocation");
  auto os = g->GetAllocationOffsetAndSize(reinterpret_cast<void*>(a));
  V_ASSERT(os.first == static_cast<off_t>(a - p) && os.second == size, "offset and size");
  V_ASSERT(g->PointerIsCorrectlyAligned(reinterpret_cast<void*>(a)) == (a == p), "only the start of the allocation is correct to free");
}
#ifndef V_NATIVE
#ifndef NDEBUG
V_HARNESS(free_odd_0) { deallocate<8192>(false, 0, 0); }
V_HARNESS(free_odd_2) { deallocate<8192>(false, 2, 0); }
V_HARNESS(free_odd_3) { deallocate<8192>(false, 3, 0); }
#define FREE(l) \
  V_HARNESS(free_even_0_##l) { deallocate<8192>(true, 0, l); } \
  V_HARNESS(free_even_1_##l) { if (l > 0) deallocate<8192>(true, 1, l); } \
  V_HARNESS(free_even_2_##l) { deallocate<8192>(true, 2, l); } \
  V_HARNESS(free_even_3_##l) { deallocate<8192>(true, 3, l); }
#define FREE4(a, b, c, d) FREE(a) FREE(b) FREE(c) FREE(d)
FREE4(0, 1, 2, 3)
FREE4(4, 5, 6, 7)
FREE4(8, 9, 10, 11)
FREE4(12, 13, 14, 15)
FREE4(16, 17, 18, 19)
FREE4(20, 21, 22, 23)
FREE4(24, 25, 26, 27)
FREE4(28, 29, 30, 31)
FREE(32)
#endif
#ifndef NDEBUG
V_HARNESS(error_type) { error_type(); }
#endif
#define ALLOC(a) \
  V_HARNESS(alloc_even_##a) { allocate<8192>(true, a); } \
  V_HARNESS(alloc_odd_##a) { allocate<8192>(false, a); }
ALLOC(0)
ALLOC(1)
ALLOC(2)
ALLOC(4)
ALLOC(8)
ALLOC(16)
ALLOC(32)
ALLOC(64)
ALLOC(128)
ALLOC(256)
ALLOC(512)
ALLOC(1024)
ALLOC(2048)
ALLOC(4096)
ALLOC(8192)
V_HARNESS(alloc_even_64k) { allocate<65536>(true, 65536); }
V_HARNESS(alloc_even_64k_0) { allocate<65536>(true, 0); }
#endif
}
