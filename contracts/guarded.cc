//@ property: C24
//@ stub: _ZN8tcmalloc17tcmalloc_internal17ExponentialBiased10NextRandomEm stub_random
//@ noinline: _ZN8tcmalloc17tcmalloc_internal17ExponentialBiased10NextRandomEm
//@ stub: _ZN8tcmalloc17tcmalloc_internalL14ForceTouchPageEPv stub_touch
//@ noinline: _ZN8tcmalloc17tcmalloc_internalL14ForceTouchPageEPv
//@ keep: stub_random stub_touch
//@ opt: .* lia=8
//@ opt: map unroll=600
//@ assume: mprotect/munmap, SystemAllocator::MmapAligned, PageMap::Ensure and Arena::Alloc act as specified; the pseudo-random generator and the stack trace filter are arbitrary; stack traces of two frames
//@ assume: guarded pages of 8 KiB and 64 KiB; pools of 1 to 512 pages anywhere in the address space
// C24: the slots of GuardedPageAllocator and their pages.
#include "guarded_common.h"
namespace tcmalloc::tcmalloc_internal {
template <size_t PS> static inline void slots() {
  any_geometry(PS);
  size_t s = v::range("slot", 0, G::kGpaMaxPages - 1), t = v::range("other", 0, G::kGpaMaxPages - 1);
  V_ASSUME(s < g_total && t < g_total && s != t);
  uintptr_t p = g->SlotToAddr(s), q = g->SlotToAddr(t);
  V_ASSERT(p % PS == 0 && p >= g_base + PS && p + 2 * PS <= g_base + g_len, "a slot is a page of the area with a page on either side");
  V_ASSERT(p >= q + 2 * PS || q >= p + 2 * PS, "no slot shares or is next to the page of another");
  V_ASSERT(g->AddrToSlot(p) == s, "the page maps back to its slot");
  uintptr_t a = v::range("addr", 0, kSpace);
  V_ASSERT(g->PointerIsMine(reinterpret_cast<void*>(a)) == (a >= g_base && a < g_base + g_len), "an address is recognised iff it is in the area");
  V_ASSERT(g->GetPageAddr(a) % PS == 0 && a - g->GetPageAddr(a) < PS, "page of an address");
}
static inline uintptr_t distance(uintptr_t a, uintptr_t page) {
  return a < page ? page - a : a < page + g_ps ? 0 : a - (page + g_ps - 1);
}
template <size_t PS> static inline void nearest() {
  any_geometry(PS);
  uintptr_t a = v::range("addr", 1, kSpace);
  V_ASSUME(a >= g_base && a < g_base + g_len);
  size_t s = g->GetNearestSlot(a);
  V_ASSERT(s < g_total, "a slot");
  size_t t = v::range("other", 0, G::kGpaMaxPages - 1);
  V_ASSUME(t < g_total);
  V_ASSERT(distance(a, page_of(s)) <= distance(a, page_of(t)), "the nearest slot");
  uintptr_t n = g->GetNearestValidPage(a);
  V_ASSERT(n >= page_of(s) && n - page_of(s) < PS, "an address on its page");
}

// ---- slots in use.  Invariant: the number of set bits of used_pages_ is
// allocated_pages_ (kept exact: every operation changes one bit and the count
// by one), none is beyond the pool, the count is at most the maximum.  Its
// consequence used here: with fewer pages in use than the pool has, some slot
// of the pool is free.
static size_t g_probe, g_free;
static size_t g_n, g_high;
static bool g_probe_bit;
static inline void any_slots(size_t ps) {
  any_geometry(ps);
  g_n = v::range("in use", 0, G::kGpaMaxPages);
  g_high = v::range("high", 0, G::kGpaMaxPages);
  V_ASSUME(g_n <= g->max_allocated_pages_ && g_n <= g_high && g_high <= g->max_allocated_pages_);
  g->allocated_pages_.store(g_n);
  g->high_allocated_pages_.store(g_high);
  g_free = v::range("free", 0, G::kGpaMaxPages - 1);
  if (g_n < g_total) V_ASSUME(g_free < g_total && !g->used_pages_.GetBit(g_free));
  g_probe = v::range("probe", 0, G::kGpaMaxPages - 1);
  V_ASSUME(g_probe < g_total);
  g_probe_bit = g->used_pages_.GetBit(g_probe);
}
static inline void reserve() {
  any_slots(8192);
  g->initialized_ = v::any_bool("initialized");
  g->allow_allocations_ = v::any_bool("allowed");
  bool can = g->initialized_ && g->allow_allocations_ && g_n < g->max_allocated_pages_;
  ssize_t s = g->ReserveFreeSlot();
  size_t slot = static_cast<size_t>(s);
  V_ASSERT((s >= 0) == can, "a slot is reserved iff one is available");
  if (s == -1) {
    V_ASSERT(g->used_pages_.GetBit(g_probe) == g_probe_bit && g->allocated_pages() == g_n, "nothing is reserved");
    return;
  }
  V_ASSERT(s >= 0 && slot < g_total, "a slot of the pool");
  V_ASSERT(slot != g_probe || !g_probe_bit, "no slot in use is reserved again");
  V_ASSERT(g->used_pages_.GetBit(g_probe) == (g_probe_bit || slot == g_probe), "that slot and no other becomes used");
  V_ASSERT(g->allocated_pages() == g_n + 1 && g->allocated_pages() <= g->max_allocated_pages_, "the count is exact");
  V_ASSERT(g->high_allocated_pages_.load() == (g_n + 1 > g_high ? g_n + 1 : g_high), "high-water mark");
}
static inline void release() {
  any_slots(8192);
  size_t s = v::range("slot", 0, G::kGpaMaxPages - 1);
  V_ASSUME(s < g_total && g->used_pages_.GetBit(s) && g_n >= 1);
  g->FreeSlot(s);
  V_ASSERT(g->used_pages_.GetBit(g_probe) == (g_probe_bit && s != g_probe), "that slot and no other becomes free");
  V_ASSERT(g->allocated_pages() == g_n - 1 && g->GetNumAvailablePages() == g->max_allocated_pages_ - g_n + 1, "the count is exact");
  V_ASSERT(g->high_allocated_pages_.load() == g_high, "the high-water mark stays");
}

// Init: the geometry assumed everywhere.
static inline void map() {
  g.havoc("gpa");
  g_ps = 8192;
  g_total = v::range("total", 1, G::kGpaMaxPages);
  const size_t max = v::range("max", 1, G::kGpaMaxPages);
  V_ASSUME(max <= g_total);
  g_base = v::range("base", 1, kSpace / 8192 - 2000) * 8192;
  new (&g->guarded_page_lock_) absl::base_internal::SpinLock;
  g->first_page_addr_ = 0;
  g->initialized_ = false;
  g->Init(max, g_total);
  V_ASSERT(g->page_size_ == g_ps && g->total_pages_ == g_total && g->max_allocated_pages_ == max, "sizes");
  V_ASSERT(g->pages_base_addr_ == g_base && g->pages_end_addr_ == g_base + g_len && g_len == (2 * g_total + 1) * g_ps && g->first_page_addr_ == g_base + g_ps, "the area holds every page and the guard pages around them");
  V_ASSERT(g->initialized_, "ready");
  const size_t s = v::range("slot", 0, G::kGpaMaxPages - 1);
  V_ASSUME(s < g_total);
  auto& d = g->data_[s];
  V_ASSERT(d.requested_size == 0 && d.allocation_start == 0 && d.dealloc_count.load() == 0 && !d.write_overflow_detected && d.alloc_trace.depth == 0 && d.dealloc_trace.depth == 0, "every slot is empty");
}
#ifndef V_NATIVE
V_HARNESS(map) { map(); }
V_HARNESS(slots_8k) { slots<8192>(); }
V_HARNESS(slots_64k) { slots<65536>(); }
V_HARNESS(nearest_8k) { nearest<8192>(); }
V_HARNESS(nearest_64k) { nearest<65536>(); }
V_HARNESS(reserve) { reserve(); }
V_HARNESS(release) { release(); }
#endif
}
