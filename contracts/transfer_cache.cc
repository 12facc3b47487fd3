//@ property: C14
//@ variant: default:
//@ variant: inv:-DV_INV
//@ opt: plunder inv=1
//@ opt: .* lia=8
//@ assume: sequential: a lock that is tried is free; the backing free list is its contract (takes every object given to it; gives any objects, at most as many as asked for)
//@ assume: rebalancing of capacities (ResizeCaches) for three size classes
// C14: TransferCache.
#include "v.h"
#include "tcmalloc_invariants.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <cstring>
#include <limits>
#include <optional>
#define private public
#include "tcmalloc/transfer_cache_internals.h"
#undef private
using namespace tcmalloc::tcmalloc_internal;
using namespace tcmalloc::tcmalloc_internal::internal_transfer_cache;

static size_t g_batch, g_bytes;
static uintptr_t* g_slots;     // the array of the cache
static int g_used, g_cap, g_max, g_low;  // before the call
#define g_probe vinv::tp_probe      // a position of the array, and what is there
#define g_at_probe vinv::tp_object
static void** g_arg;           // the caller's batch
static size_t g_n;
static int g_inserts, g_removes, g_given;
static bool g_draining;
#define g_passed vinv::tp_passed    // times the object at the probed position was passed on
static struct TC_* g_self;
#ifdef V_INV
#define V_INV_ON 1
#else
#define V_INV_ON 0
#endif
struct FreeListContract {
  size_t got_n = 0;
  uintptr_t* got = nullptr;
  static inline size_t last_n;
  static inline void** last;
  static inline uintptr_t last_probe;
  static inline size_t probe;
  void Init(int) {}
  void InsertRange(absl::Span<void*> b);
  int RemoveRange(absl::Span<void*> b) {
    g_removes++;
    last = b.data();
    last_n = b.size();
    return g_given = v::range("given", 0, b.size());
  }
};
struct ManagerContract {
  static size_t class_to_size(int) { return g_bytes; }
  static size_t num_objects_to_move(int) { return g_batch; }
  static void* Alloc(size_t) { return g_slots; }
  static constexpr int kNumBaseClasses = 3, kNumClasses = 3, kMaxSizeClassesToResize = 2;
};
using TC = TransferCache<FreeListContract, ManagerContract>;
static VObj<TC> t;
void FreeListContract::InsertRange(absl::Span<void*> b) {
  if (!g_draining || !V_INV_ON) g_inserts++;
  last = b.data();
  last_n = b.size();
  V_ASSERT(!t->lock_.IsHeld(), "the backing list is used without the lock");
  V_ASSERT(b.size() > 0 && b.size() <= kMaxObjectsToMove, "at most a batch is passed on");
  if (g_draining) {  // positions [used, used + n) of the array
    int used = t->GetSlotInfo().used;
    if (g_probe >= used && g_probe - used < static_cast<int>(b.size())) {
      g_passed++;
      V_ASSERT(reinterpret_cast<uintptr_t>(b[g_probe - used]) == g_at_probe, "the object itself is passed on");
    }
  }
}
static constexpr int kMaxSlots = kMaxCapacityInBatches * static_cast<int>(kMaxObjectsToMove);
static inline bool invariant() {
  SizeInfo i = t->GetSlotInfo();
  return 0 <= i.used && i.used <= i.capacity && i.capacity <= t->max_capacity_;
}
static inline void any_cache() {
  t.havoc("cache");
  new (&t->lock_) absl::base_internal::SpinLock;
  g_slots = static_cast<uintptr_t*>(__v_arr(8, kMaxSlots, "slots"));
  t->slots_ = reinterpret_cast<void**>(g_slots);
  g_max = v::range("max", 0, kMaxSlots);
  g_cap = v::range("capacity", 0, kMaxSlots);
  g_used = v::range("used", 0, kMaxSlots);
  g_low = v::range("low", 0, kMaxSlots);
  V_ASSUME(g_used <= g_cap && g_cap <= g_max && g_low <= g_used);
  const_cast<int32_t&>(t->max_capacity_) = g_max;
  t->slot_info_.store({g_used, g_cap});
  t->low_water_mark_ = g_low;
  for (StatsCounter* c : {&t->insert_hits_, &t->remove_hits_, &t->remove_object_hits_, &t->insert_misses_, &t->remove_misses_}) {
    V_ASSUME(c->value() >= 0 && c->value() < int64_t{1} << 60);
  }
  g_batch = v::range("batch", 2, kMaxObjectsToMove);
  g_bytes = v::range("bytes", 8, kMaxSize);
  g_inserts = g_removes = g_passed = 0;
  g_draining = false;
  g_probe = v::range("position", 0, kMaxSlots - 1);
  g_at_probe = g_slots[g_probe];
}
static inline void any_batch() {
  g_n = v::range("n", 1, kMaxObjectsToMove);
  g_arg = static_cast<void**>(__v_arr(8, kMaxObjectsToMove, "objects"));
}
static inline int used() { return t->GetSlotInfo().used; }
static inline int cap() { return t->GetSlotInfo().capacity; }
#ifndef V_NATIVE
#ifndef V_INV
V_HARNESS(insert) {
  any_cache();
  any_batch();
  const size_t k = v::range("object", 0, kMaxObjectsToMove - 1);
  V_ASSUME(k < g_n);
  void* const x = g_arg[k];
  const size_t fits = std::min<size_t>(g_n, g_cap - g_used);
  t->InsertRange(1, {g_arg, g_n});
  V_ASSERT(invariant() && cap() == g_cap, "occupancy within capacity, capacity unchanged");
  V_ASSERT(used() == g_used + static_cast<int>(fits), "as many objects as fit are cached");
  V_ASSERT(g_inserts == (fits < g_n), "the rest is passed on, once");
  if (fits < g_n) V_ASSERT(FreeListContract::last == g_arg + fits && FreeListContract::last_n == g_n - fits, "exactly the objects that do not fit are passed on");
  V_ASSERT(g_arg[k] == x, "the batch is unchanged");
  if (k < fits) V_ASSERT(g_slots[g_used + k] == reinterpret_cast<uintptr_t>(x), "an object that fits is in the cache");
  if (g_probe < g_used) V_ASSERT(g_slots[g_probe] == g_at_probe, "objects in the cache stay");
  V_ASSERT(t->low_water_mark_ <= used() && t->low_water_mark_ == g_low, "low-water mark");
  V_ASSERT(!t->lock_.IsHeld(), "unlocked");
}
V_HARNESS(remove) {
  any_cache();
  any_batch();
  const int got = t->RemoveRange(1, {g_arg, g_n});
  V_ASSERT(invariant() && cap() == g_cap, "occupancy within capacity, capacity unchanged");
  V_ASSERT(t->low_water_mark_ == std::min(g_low, used()), "low-water mark");
  V_ASSERT(g_inserts == 0 && !t->lock_.IsHeld(), "nothing is passed on");
  if (g_used == 0) {
    V_ASSERT(g_removes == 1 && got == g_given && FreeListContract::last == g_arg && FreeListContract::last_n == g_n, "an empty cache asks the backing list");
    return;
  }
  V_ASSERT(g_removes == 0, "the backing list is not asked");
  V_ASSERT(got == static_cast<int>(std::min<size_t>(g_n, g_used)), "as many as there are");
  V_ASSERT(used() == g_used - got, "they are no longer in the cache");
  if (g_probe < used()) V_ASSERT(g_slots[g_probe] == g_at_probe, "the others stay");
  else if (g_probe < g_used) V_ASSERT(reinterpret_cast<uintptr_t>(g_arg[g_probe - used()]) == g_at_probe, "what leaves the cache is returned");
}
V_HARNESS(shrink) {
  any_cache();
  g_draining = true;
  const bool r = t->ShrinkCache(1);
  V_ASSERT(invariant() && !t->lock_.IsHeld(), "occupancy within capacity");
  const int n = g_batch;
  V_ASSERT(r == (g_cap > n), "a cache of more than a batch shrinks");
  V_ASSERT(cap() == (r ? g_cap - n : g_cap), "by exactly one batch");
  V_ASSERT(used() == std::min(g_used, cap()), "what no longer fits leaves");
  V_ASSERT(g_inserts == (used() < g_used), "it is passed on");
  V_ASSERT(t->low_water_mark_ == std::min(g_low, used()), "low-water mark");
  if (g_probe < g_used) V_ASSERT(g_passed == (g_probe >= used()), "every object that leaves is passed on once, no other is");
  if (g_probe < used()) V_ASSERT(g_slots[g_probe] == g_at_probe, "the others stay");
}
V_HARNESS(grow) {
  any_cache();
  const bool can = t->CanIncreaseCapacity(1);
  const bool spare = t->HasSpareCapacity(1);
  const bool r = t->IncreaseCacheCapacity(1);
  const int n = g_batch;
  V_ASSERT(invariant() && !t->lock_.IsHeld(), "capacity within its maximum");
  V_ASSERT(can == r && r == (g_cap + n <= g_max), "it grows iff a batch more is allowed");
  V_ASSERT(cap() == (r ? g_cap + n : g_cap) && used() == g_used, "by exactly one batch");
  V_ASSERT(spare == (g_cap - g_used >= n), "spare room");
  V_ASSERT(static_cast<int>(t->tc_length()) == g_used && t->max_capacity() == g_max, "length");
}
template <int N> static inline void capacity() {
  g_batch = N;
  g_bytes = v::range("bytes", 8, kMaxSize);
  const auto c = TC::CapacityNeeded(1);
  V_ASSERT(0 <= c.capacity && c.capacity <= c.max_capacity && c.max_capacity <= kMaxSlots, "the first capacity is within the maximum");
  V_ASSERT(c.max_capacity == N || c.max_capacity * g_bytes <= 1 << 20, "at most 1 MiB of objects or one batch");
  V_ASSERT(c.capacity >= N && c.capacity % N == 0 && c.max_capacity % N == 0, "whole batches, at least one");
}
#define C1(n) V_HARNESS(capacity_##n) { capacity<n>(); }
C1(2) C1(3) C1(4) C1(5)
C1(6) C1(7) C1(8) C1(9)
C1(10) C1(11) C1(12) C1(13)
C1(14) C1(15) C1(16) C1(17)
C1(18) C1(19) C1(20) C1(21)
C1(22) C1(23) C1(24) C1(25)
C1(26) C1(27) C1(28) C1(29)
C1(30) C1(31) C1(32) C1(33)
C1(34) C1(35) C1(36) C1(37)
C1(38) C1(39) C1(40) C1(41)
C1(42) C1(43) C1(44) C1(45)
C1(46) C1(47) C1(48) C1(49)
C1(50) C1(51) C1(52) C1(53)
C1(54) C1(55) C1(56) C1(57)
C1(58) C1(59) C1(60) C1(61)
C1(62) C1(63) C1(64) C1(65)
C1(66) C1(67) C1(68) C1(69)
C1(70) C1(71) C1(72) C1(73)
C1(74) C1(75) C1(76) C1(77)
C1(78) C1(79) C1(80) C1(81)
C1(82) C1(83) C1(84) C1(85)
C1(86) C1(87) C1(88) C1(89)
C1(90) C1(91) C1(92) C1(93)
C1(94) C1(95) C1(96) C1(97)
C1(98) C1(99) C1(100) C1(101)
C1(102) C1(103) C1(104) C1(105)
C1(106) C1(107) C1(108) C1(109)
C1(110) C1(111) C1(112) C1(113)
C1(114) C1(115) C1(116) C1(117)
C1(118) C1(119) C1(120) C1(121)
C1(122) C1(123) C1(124) C1(125)
C1(126) C1(127) C1(128)
V_HARNESS(init) {
  any_cache();
  const auto z = TC::CapacityNeeded(0);
  V_ASSERT(z.capacity == 0 && z.max_capacity == 0, "class 0 is not cached");
  TC* c = new (&t.v) TC(nullptr, 1, {g_cap, g_max});
  V_ASSERT(invariant() && used() == 0 && cap() == g_cap && c->max_capacity() == g_max && c->low_water_mark_ == 0, "a new cache is empty");
}
// Capacities of three size classes, with ShrinkCache and IncreaseCacheCapacity
// as above.
struct Classes : ManagerContract {
  int cap[3], max[3], batch[3], grown = 0, shrunk = 0;
  size_t FetchCommitIntervalMisses(int) { return v::range("misses", 0, 3); }
  bool CanIncreaseCapacity(int c) { return max[c] - cap[c] >= batch[c]; }
  bool ShrinkCache(int c) {
    if (cap[c] <= batch[c]) return false;
    cap[c] -= batch[c];
    shrunk++;
    return true;
  }
  bool IncreaseCacheCapacity(int c) {
    if (cap[c] + batch[c] > max[c]) return false;
    cap[c] += batch[c];
    grown++;
    return true;
  }
};
V_HARNESS(resize) {
  Classes m;
  for (int c = 0; c < 3; c++) {
    m.batch[c] = v::range("batch", 2, kMaxObjectsToMove);
    m.max[c] = v::range("max", 0, kMaxSlots);
    m.cap[c] = v::range("capacity", 0, kMaxSlots);
    V_ASSUME(m.cap[c] <= m.max[c]);
  }
  ResizeCaches(m, 0);
  V_ASSERT(m.grown == m.shrunk && m.grown <= Classes::kMaxSizeClassesToResize, "for every batch of capacity given up one is granted");
  for (int c = 0; c < 3; c++) V_ASSERT(0 <= m.cap[c] && m.cap[c] <= m.max[c], "capacity within its maximum");
}
#else
V_HARNESS(plunder) {
  any_cache();
  g_draining = true;
  vinv::tp_used = g_used;
  vinv::tp_cap = g_cap;
  vinv::tp_low = g_low;
  t->TryPlunder(1);
  V_ASSERT(invariant() && !t->lock_.IsHeld() && cap() == g_cap, "occupancy within capacity, capacity unchanged");
  V_ASSERT(t->low_water_mark_ == used(), "the low-water mark starts afresh");
  V_ASSERT(g_max == 0 || used() == g_used - g_low, "as many objects leave as were not used since the last drain");
  if (g_probe < g_used) V_ASSERT(g_passed == (g_probe >= used()), "every object that leaves is passed on once, no other is");
  if (g_probe < used()) V_ASSERT(g_slots[g_probe] == g_at_probe, "the others stay");
}
#endif
#endif
