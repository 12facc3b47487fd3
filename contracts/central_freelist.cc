//@ property: C15
//@ level: other
//@ opt: .* solve_budget=300 vc_timeout=100 group=4
//@ assume: the callees are their contracts: a span's free list (C08, C09) counts live objects, gives exactly as many free objects as it can and takes back live ones; the list family (C03, C10) finds any span of the lowest nonempty list; the page heap gives an unused span or none
//@ assume: filing one span (ReleaseToSpans, IndexFor, Init, Populate) is for every live count and every span size; InsertRange is for batches of up to 3 objects shared among spans in the ways listed, and RemoveRange for up to 2 spans in use (batches of any size, any live counts)
//@ assume: sequential (no other thread runs while the lock is dropped); lifetimes of spans (a histogram of durations) are not specified
//@ noinline: _ZN4absl7debian312MillisecondsIdTnNSt9enable_ifIXsr3std17is_floating_pointIT_EE5valueEiE4typeELi0EEENS0_8DurationES3_
//@ stub: _ZN4absl7debian312MillisecondsIdTnNSt9enable_ifIXsr3std17is_floating_pointIT_EE5valueEiE4typeELi0EEENS0_8DurationES3_ stub_ms
//@ keep: stub_ms
//@ noinline: _ZN8tcmalloc17tcmalloc_internal25central_freelist_internal15CentralFreeListI4HeapE17LifetimeBucketNumEN4absl7debian38DurationE
//@ stub: _ZN8tcmalloc17tcmalloc_internal25central_freelist_internal15CentralFreeListI4HeapE17LifetimeBucketNumEN4absl7debian38DurationE stub_bucket
//@ keep: stub_bucket
//@ stub: _ZN4absl7debian313base_internal18ThrowStdOutOfRangeEPKc stub_range
//@ keep: stub_range
// C15: CentralFreeList.
#include "v.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <iostream>
#include <limits>
#include "absl/algorithm/container.h"
#include "absl/time/time.h"
#include "absl/types/span.h"
#define private public
#include "tcmalloc/common.h"
#include "tcmalloc/hinted_tracker_lists.h"
#include "tcmalloc/span.h"
#include "tcmalloc/span_stats.h"
#include "tcmalloc/internal/central_freelist_hooks.h"
#include "tcmalloc/internal/delay_injection.h"
#include "tcmalloc/internal/hook_list.h"
#undef private

// Which spans, objects and lists there are.
static constexpr int K = 4;        // spans (the last one fresh in the page heap)
static constexpr int kNone = 255;
static absl::base_internal::SpinLock* g_lock;
static size_t g_size;              // object size
static size_t g_pages;
static uint32_t g_ops;             // objects per span
static int g_spans;                // spans in use before the call
static int g_mode;                 // kind of batch
static void** g_batch;             // RemoveRange: the caller's array
static size_t g_batch_n;
static size_t g_probe;             // RemoveRange: a position in it; InsertRange: an object
static int g_times;                // how often it was filled in / given back
static uint16_t g_probe_idx;
static int g_probe_span;


namespace tcmalloc {
namespace tcmalloc_internal {
// Contract of Span's free list.
struct SpanC {
  using ObjIdx = uint16_t;
  static constexpr size_t kNonemptyIndexBits = Span::kNonemptyIndexBits;
  static constexpr Length kLargeSpanLength = Span::kLargeSpanLength;
  int id;
  uint16_t allocated;  // what Allocated() returns
  uint16_t live;       // ghost: objects in use
  uint8_t index;       // the list the span says it is in
  int filed;           // ghost: the list it is in
  int freed;           // ghost: times handed to the page heap
  bool built;
  uint16_t Allocated() const { return allocated; }
  uint8_t nonempty_index() const { return index; }
  void set_nonempty_index(uint8_t i) { index = i; }
  bool FreelistEmpty(size_t size, uint32_t ops) const {
    V_ASSERT(size == g_size && ops == g_ops, "a span is asked about with its own sizes");
    return allocated == g_ops;
  }
  static uint32_t CalcReciprocal(size_t size) {
    V_ASSERT(size > 0, "a size");
    return static_cast<uint32_t>(__v_uf("reciprocal", size, 0, 0, 0));
  }
  static bool UseBitmapForSize(size_t size) { return Span::UseBitmapForSize(size); }
  uint64_t AllocTime() const { return __v_uf("time", id, 0, 0, 0); }
  void* start_address() const { return reinterpret_cast<void*>(__v_uf("start", id, 0, 0, 0)); }
  ObjIdx number(void* p) const { return static_cast<ObjIdx>(__v_uf("idx", id, reinterpret_cast<uintptr_t>(p), 0, 0)); }
  ObjIdx PtrToIdx(void* p, size_t size) const {
    V_ASSERT(size == g_size && !UseBitmapForSize(size), "list numbering only for small objects");
    return number(p);
  }
  ObjIdx BitmapPtrToIdx(void* p, size_t size, uint32_t r) const {
    V_ASSERT(size == g_size && UseBitmapForSize(size) && r == CalcReciprocal(g_size), "bitmap numbering only for larger objects");
    return number(p);
  }
  ObjIdx as_idx(ObjIdx i) const { return i; }
  ObjIdx as_idx(void* p) const { return number(p); }
  template <typename T> bool FreelistPushBatch(absl::Span<T> b, size_t size, uint32_t r) {
    V_ASSERT(g_lock->IsHeld(), "spans change under the lock");
    V_ASSERT(size == g_size && r == CalcReciprocal(g_size), "given back with the span's own sizes");
    V_ASSERT(b.size() > 0 && b.size() <= live && freed == 0, "only live objects are given back");
    if (g_mode == 1) {
      for (size_t i = 0; i < b.size(); i++) g_times += id == g_probe_span && as_idx(b[i]) == g_probe_idx ? 1 : 0;
    }
    live -= b.size();
    if (live == 0) return false;
    allocated = live;
    return true;
  }
  void taken(absl::Span<void*> b, size_t n) {
    size_t off = static_cast<size_t>(b.data() - g_batch);
    V_ASSERT(off <= g_batch_n && b.size() <= g_batch_n - off, "only the caller's array is filled");
    if (g_probe >= off && g_probe - off < n) g_times++;
    live += n;
    allocated = live;
  }
  size_t FreelistPopBatch(absl::Span<void*> b, size_t size) {
    V_ASSERT(g_lock->IsHeld(), "spans change under the lock");
    V_ASSERT(size == g_size, "taken with the span's own size");
    V_ASSERT(b.size() > 0 && live < g_ops && freed == 0, "only a span with free objects is asked");
    size_t n = std::min<size_t>(b.size(), g_ops - live);
    taken(b, n);
    return n;
  }
  int BuildFreelist(size_t size, size_t count, absl::Span<void*> b, uint64_t) {
    V_ASSERT(size == g_size && count == g_ops && !built, "a new span is divided into its class's objects, once");
    V_ASSERT(b.size() > 0, "something is wanted");
    built = true;
    size_t n = std::min<size_t>(b.size(), g_ops);
    taken(b, n);
    return static_cast<int>(n);
  }
};
static SpanC sp[K];
// Contract of HintedTrackerLists.
template <typename T, size_t N> struct ListsC {
  static_assert(N == 8);
  constexpr ListsC() {}
  struct PeekResult {
    T* tracker;
    size_t index;
  };
  void locked() { V_ASSERT(g_lock->IsHeld(), "lists change under the lock"); }
  void Add(T* s, size_t i) {
    locked();
    V_ASSERT(s->filed == kNone && i < N, "filed once");
    s->filed = static_cast<int>(i);
  }
  void Remove(T* s, size_t i) {
    locked();
    V_ASSERT(s->filed == static_cast<int>(i) && i < N, "taken out of the list it is in");
    s->filed = kNone;
  }
  void Move(T* s, size_t from, size_t to) {
    locked();
    V_ASSERT(s->filed == static_cast<int>(from) && from != to && to < N, "moved from the list it is in");
    s->filed = static_cast<int>(to);
  }
  PeekResult PeekLeast(size_t n) {
    locked();
    V_ASSERT(n < N, "an index");
    int best = kNone;
    for (int k = 0; k < K; k++) {
      if (k >= g_spans && k < K - 1) continue;
      if (sp[k].filed != kNone && sp[k].filed >= static_cast<int>(n) && sp[k].filed < best) best = sp[k].filed;
    }
    if (best == kNone) return {nullptr, N};
    for (int k = 0; k < K; k++) {
      if (k >= g_spans && k < K - 1) continue;
      if (sp[k].filed == best) return {&sp[k], static_cast<size_t>(best)};
    }
    return {nullptr, N};
  }
  T* GetLeast(size_t n) {
    PeekResult r = PeekLeast(n);
    if (r.tracker) Remove(r.tracker, r.index);
    return r.tracker;
  }
  size_t SizeOfList(size_t n) const {
    size_t c = 0;
    for (int k = 0; k < K; k++) c += sp[k].filed == static_cast<int>(n) ? 1 : 0;
    return c;
  }
  template <typename F> void Iter(const F&, size_t) const {}
};
}  // namespace tcmalloc_internal
}  // namespace tcmalloc
namespace absl {
ABSL_NAMESPACE_BEGIN
template <typename T> using SpanC = Span<T>;
ABSL_NAMESPACE_END
}  // namespace absl
extern "C" __attribute__((noinline, used)) void stub_range(const char*) {
  V_ASSERT(false, "no access outside a batch");
  __v_stop();
}
#define Span SpanC
#define HintedTrackerLists ListsC
#define private public
#include "tcmalloc/central_freelist.h"
#undef private
#undef Span
#undef HintedTrackerLists
using namespace tcmalloc::tcmalloc_internal;
using namespace tcmalloc::tcmalloc_internal::central_freelist_internal;

// The batch given to InsertRange, and which span each object is in.
static constexpr int B = 4;
static void* ob[B];
static int owner[B];
static int g_n;
static bool g_got;       // a span came from the page heap
static int g_hook_in, g_hook_out;
struct Heap {
  static void InvokeInsertRangeHook(size_t, absl::Span<void*> b) {
    V_ASSERT(!g_lock->IsHeld() && b.data() == ob && static_cast<int>(b.size()) == g_n, "hook sees the batch");
    g_hook_in++;
  }
  static void InvokeRemoveRangeHook(size_t, absl::Span<void*> b) {
    V_ASSERT(b.data() == g_batch, "hook sees what is returned");
    g_hook_out += static_cast<int>(b.size());
  }
  static uint64_t clock_now() { return v::any<uint64_t>("now"); }
  static double clock_frequency() { return static_cast<double>(1000); }
  static size_t class_to_size(int) { return g_size; }
  static Length class_to_pages(int) { return Length(g_pages); }
  static size_t num_objects_to_move(int) { return 32; }
  static void MapObjectsToSpans(absl::Span<void*> b, SpanC** spans, int) {
    for (size_t i = 0; i < b.size(); i++) spans[i] = &sp[owner[i]];
  }
  static SpanC* AllocateSpan(int, size_t ops, Length pages) {
    V_ASSERT(!g_lock->IsHeld(), "the page heap is used without the lock");
    V_ASSERT(ops == g_ops && pages == Length(g_pages), "a span of the class's size is asked for");
    V_ASSERT(!g_got, "one span is asked for");
    g_got = v::any_bool("got");
    return g_got ? &sp[K - 1] : nullptr;
  }
  static void DeallocateSpans(size_t ops, absl::Span<SpanC*> s) {
    V_ASSERT(!g_lock->IsHeld(), "the page heap is used without the lock");
    V_ASSERT(ops == g_ops && s.size() > 0, "whole spans leave");
    for (size_t i = 0; i < s.size(); i++) s[i]->freed++;
  }
};
extern "C" __attribute__((noinline, used)) absl::Duration stub_ms(double) { return absl::ZeroDuration(); }
extern "C" __attribute__((noinline, used)) int stub_bucket(void*, absl::Duration) { return static_cast<int>(v::range("bucket", 0, 7)); }

using CFL = tcmalloc::tcmalloc_internal::central_freelist_internal::CentralFreeList<Heap>;
static VObj<CFL> c;
static int64_t g_hist[16], g_free, g_req, g_ret;
static int g_bucket;
static unsigned width(uint32_t x) { return absl::bit_width(static_cast<uint16_t>(x)); }
// The list of a span with `live` objects in use.
static uint8_t list_for(uint32_t live) {
  if (g_ops <= 16) return live <= 8 ? static_cast<uint8_t>(8 - live) : 0;
  unsigned w = width(live);
  return static_cast<uint8_t>(w < 8 ? 8 - w : 0);
}
static void any_list(bool one_object = false) {
  c.havoc("cfl");
  new (&c->lock_) absl::base_internal::SpinLock;
  g_lock = &c->lock_;
  // kFewest.. objects per span; the object size decides the kind of free list.
  g_size = v::range("size", 8, kMaxSize);
  g_pages = v::range("pages", 1, 62);
  g_ops = one_object ? 1 : static_cast<uint32_t>(v::range("ops", 2, 65535));
  c->object_size_ = g_size;
  c->pages_per_span_ = Length(g_pages);
  c->objects_per_span_ = g_ops;
  c->size_reciprocal_ = SpanC::CalcReciprocal(g_size);
  c->use_all_buckets_for_few_object_spans_ = g_ops <= 16;
  g_bucket = static_cast<int>(v::range("bucket", 0, 15));
  for (int i = 0; i < 16; i++) g_hist[i] = c->objects_to_spans_[i].value();
  // Counters do not overflow.
  for (int i = 0; i < 16; i++) V_ASSUME(g_hist[i] >= 0 && g_hist[i] < int64_t{1} << 60);
  for (int i = 0; i < 8; i++) V_ASSUME(c->completed_spans_[i].value() >= 0 && c->completed_spans_[i].value() < int64_t{1} << 60);
  for (size_t i = 0; i < kSpansUsedStatBuckets; i++) V_ASSUME(c->span_allocations_tracker_[i].value() >= 0 && c->span_allocations_tracker_[i].value() < int64_t{1} << 60);
  for (int i = 0; i < B; i++) V_ASSUME(c->num_same_spans_[i].value() >= 0 && c->num_same_spans_[i].value() < int64_t{1} << 60);
  g_free = c->counter_.value();
  V_ASSUME(g_free >= int64_t{1} << 40 && g_free < int64_t{1} << 60);
  V_ASSUME(c->num_spans_requested_.value() >= 0 && c->num_spans_requested_.value() < int64_t{1} << 60);
  V_ASSUME(c->num_spans_returned_.value() >= 0 && c->num_spans_returned_.value() < int64_t{1} << 60);
  g_req = c->num_spans_requested_.value();
  g_ret = c->num_spans_returned_.value();
  g_got = false;
  g_spans = 1;
  g_times = g_mode = g_hook_in = g_hook_out = 0;
  for (int k = 0; k < K; k++) {
    sp[k].id = k;
    sp[k].allocated = sp[k].live = 0;
    sp[k].filed = kNone;
    sp[k].index = v::any<uint8_t>("stale");
    sp[k].freed = 0;
    sp[k].built = false;
  }
}
// Span k holds `live` objects in use and is filed accordingly.
static void any_span(int k, uint32_t live) {
  sp[k].allocated = sp[k].live = static_cast<uint16_t>(live);
  sp[k].built = true;
  if (live < g_ops) {
    sp[k].filed = list_for(live);
    sp[k].index = static_cast<uint8_t>(sp[k].filed);
  }
}
// Every span is where it belongs; was[k] is the number of live objects before.
static void check(const uint32_t* was) {
  int64_t d = 0, free = 0;
  int got = 0, left = 0;
  for (int k = 0; k < K; k++) {
    if (was[k]) d -= static_cast<int>(width(was[k])) - 1 == g_bucket ? 1 : 0, free -= g_ops - was[k];
    if (sp[k].live) d += static_cast<int>(width(sp[k].live)) - 1 == g_bucket ? 1 : 0, free += g_ops - sp[k].live;
    if (!was[k] && sp[k].live) got++;
    if (was[k] && !sp[k].live) left++;
    bool partly = sp[k].live > 0 && sp[k].live < g_ops;
    V_ASSERT(sp[k].filed == (partly ? list_for(sp[k].live) : kNone), "a partly used span is filed under its number of live objects, no other span is");
    if (partly) V_ASSERT(sp[k].index == sp[k].filed, "the span knows where it is filed");
    V_ASSERT(sp[k].freed == (was[k] && !sp[k].live ? 1 : 0), "exactly the spans with no live object leave");
  }
  V_ASSERT(c->objects_to_spans_[g_bucket].value() == g_hist[g_bucket] + d, "the histogram counts the spans by live objects");
  V_ASSERT(c->counter_.value() == g_free + free, "the count of free objects is what the spans hold");
  V_ASSERT(c->length() == static_cast<size_t>(g_free + free), "and is what length reports");
  V_ASSERT(c->num_spans_requested_.value() == g_req + got, "spans taken from the page heap are counted");
  V_ASSERT(c->num_spans_returned_.value() == g_ret + left, "spans given to the page heap are counted");
  V_ASSERT(!c->lock_.IsHeld(), "the lock is released");
}

V_HARNESS(init) {
  c.havoc("cfl");
  g_size = v::range("size", 0, kMaxSize);
  g_pages = v::range("pages", 1, 62);
  // Valid size classes (C13): the number of objects of a span fits in 16 bits.
  V_ASSUME(g_pages * kPageSize <= g_size * 65535);
  c->Init(v::range("class", 0, 200));
  if (g_size == 0) return;
  // 16 bits are enough for the number of objects of a span.
  V_ASSERT(c->object_size_ == g_size && c->pages_per_span_ == Length(g_pages), "takes the class's sizes");
  V_ASSERT(c->objects_per_span_ == g_pages * kPageSize / g_size, "as many objects as fit in the span");
  V_ASSERT(c->use_all_buckets_for_few_object_spans_ == (c->objects_per_span_ <= 16), "few objects are filed by their exact number");
}
V_HARNESS(index_for) {
  any_list();
  uint16_t live = static_cast<uint16_t>(v::range("live", 1, 65535));
  uint8_t w = static_cast<uint8_t>(width(live));
  uint8_t i = c->IndexFor(live, w);
  V_ASSERT(i == list_for(live) && i < kNumLists, "the list for a number of live objects");
  uint16_t more = static_cast<uint16_t>(v::range("more", 1, 65535));
  if (more >= live) V_ASSERT(c->IndexFor(more, static_cast<uint8_t>(width(more))) <= i, "fuller spans come first");
}
// ReleaseToSpans: any number of live objects of one span.
V_HARNESS(release) {
  any_list();
  uint32_t live = static_cast<uint32_t>(v::range("live", 1, 65535));
  V_ASSUME(live <= g_ops);
  any_span(0, live);
  uint16_t* b = static_cast<uint16_t*>(__v_arr(2, kMaxObjectsToMove, "objects"));
  size_t n = v::range("n", 1, kMaxObjectsToMove);
  V_ASSUME(n <= live);
  c->lock_.lock();
  SpanC* r = c->ReleaseToSpans(absl::Span<uint16_t>(b, n), &sp[0], g_size, c->size_reciprocal_, g_ops);
  c->lock_.unlock();
  V_ASSERT(sp[0].live == live - n, "the objects went back to the span");
  V_ASSERT(r == (n == live ? &sp[0] : nullptr), "returns the span exactly when none of its objects is live");
  sp[0].freed = r ? 1 : 0;
  uint32_t was[K] = {live};
  // The caller accounts for the objects and the spans that leave.
  if (r) g_free += static_cast<int64_t>(g_ops) - live, g_ret -= 1;
  else g_free -= static_cast<int64_t>(n);
  check(was);
  V_COVER(r != nullptr && live == g_ops, "a full span emptied at once");
  V_COVER(r == nullptr && live == g_ops, "a full span becomes available");
}
template <int n, int spans> static inline void insert(std::initializer_list<int> own) {
  any_list();
  g_mode = 1;
  g_spans = spans;
  uint32_t was[K] = {};
  for (int k = 0; k < spans; k++) {
    was[k] = static_cast<uint32_t>(v::range("live", 1, 65535));
    V_ASSUME(was[k] <= g_ops);
    any_span(k, was[k]);
  }
  uint32_t mine[K] = {};
  g_n = n;
  for (int i = 0; i < n; i++) {
    ob[i] = reinterpret_cast<void*>(v::range("object", 8, uint64_t{1} << 47));
    owner[i] = own.begin()[i];
    for (int k = 0; k < spans; k++) mine[k] += owner[i] == k ? 1 : 0;
    // Different objects of a span have different numbers.
    for (int j = 0; j < i; j++) V_ASSUME(owner[i] != owner[j] || sp[owner[i]].number(ob[i]) != sp[owner[j]].number(ob[j]));
  }
  for (int k = 0; k < spans; k++) V_ASSUME(mine[k] <= was[k]);
  g_probe = v::range("probe", 0, n - 1);
  g_probe_span = owner[g_probe];
  g_probe_idx = sp[g_probe_span].number(ob[g_probe]);
  c->InsertRange(absl::MakeSpan(ob, n));
  V_ASSERT(g_times == 1, "every object goes back to its own span, once");
  V_ASSERT(g_hook_in == 1, "the hook is called once");
  for (int k = 0; k < spans; k++) V_ASSERT(sp[k].live + mine[k] == was[k], "each span gets its own objects back");
  check(was);
}
// Every way of sharing spans, up to renaming them.
V_HARNESS(insert_a) { insert<1, 1>({0}); }
V_HARNESS(insert_aa) { insert<2, 1>({0, 0}); }
V_HARNESS(insert_ab) { insert<2, 2>({0, 1}); }
#ifdef V_THOROUGH
V_HARNESS(insert_aba) { insert<3, 2>({0, 1, 0}); }
V_HARNESS(insert_aaa) { insert<3, 1>({0, 0, 0}); }
V_HARNESS(insert_aab) { insert<3, 2>({0, 0, 1}); }
V_HARNESS(insert_abb) { insert<3, 2>({0, 1, 1}); }
V_HARNESS(insert_abc) { insert<3, 3>({0, 1, 2}); }
V_HARNESS(insert_abab) { insert<4, 2>({0, 1, 0, 1}); }
#endif
V_HARNESS(insert_single) {
  any_list(true);
  g_n = 2;
  for (int i = 0; i < 2; i++) {
    any_span(i, 1);
    ob[i] = reinterpret_cast<void*>(v::range("object", 8, uint64_t{1} << 47));
    owner[i] = i;
  }
  c->InsertRange(absl::MakeSpan(ob, 2));
  V_ASSERT(sp[0].freed == 1 && sp[1].freed == 1, "spans of one object leave when it does");
  V_ASSERT(c->counter_.value() == g_free && c->objects_to_spans_[g_bucket].value() == g_hist[g_bucket], "and are not counted");
}
template <int spans> static inline void remove() {
  any_list();
  g_mode = 2;
  g_spans = spans;
  uint32_t was[K] = {}, before = 0, room = 0;
  for (int k = 0; k < spans; k++) {
    was[k] = static_cast<uint32_t>(v::range("live", 1, 65535));
    V_ASSUME(was[k] <= g_ops);
    any_span(k, was[k]);
    // Which of the spans in the lowest list is found does not matter: they
    // are numbered in the order in which they are found.
    if (k > 0 && was[k] < g_ops) V_ASSUME(was[k - 1] < g_ops && list_for(was[k - 1]) <= list_for(was[k]));
    before += was[k];
    room += g_ops - was[k];
  }
  g_batch_n = v::range("n", 1, kMaxObjectsToMove);
  g_batch = static_cast<void**>(__v_arr(8, kMaxObjectsToMove, "batch"));
  g_probe = v::range("probe", 0, kMaxObjectsToMove - 1);
  size_t got = c->RemoveRange(absl::MakeSpan(g_batch, g_batch_n));
  V_ASSERT(got <= g_batch_n, "no more than asked for");
  V_ASSERT(g_times == (g_probe < got ? 1 : 0), "every object returned was taken from a span, once");
  uint32_t after = 0;
  for (int k = 0; k < K; k++) after += sp[k].live;
  V_ASSERT(after == before + got, "what is returned was free");
  V_ASSERT(got >= std::min<size_t>(g_batch_n, room), "free objects are not left behind");
  V_ASSERT(!g_got || room < g_batch_n, "a new span is only taken when the others have too little");
  V_ASSERT(g_hook_out == static_cast<int>(got), "the hook sees what is returned");
  check(was);
  V_COVER(g_got, "a new span");
  V_COVER(!g_got && got == 0 && spans == 0 || spans > 0, "nothing to give");
}
V_HARNESS(remove_0) { remove<0>(); }
V_HARNESS(remove_1) { remove<1>(); }
#ifdef V_THOROUGH
V_HARNESS(remove_2) { remove<2>(); }
#endif
V_HARNESS(remove_single) {
  any_list(true);
  g_batch_n = v::range("n", 1, kMaxObjectsToMove);
  g_batch = static_cast<void**>(__v_arr(8, kMaxObjectsToMove, "batch"));
  size_t got = c->RemoveRange(absl::MakeSpan(g_batch, g_batch_n));
  V_ASSERT(got == (g_got ? 1 : 0), "one span, one object");
  if (got) V_ASSERT(g_batch[0] == sp[K - 1].start_address(), "which is the span itself");
  V_ASSERT(c->counter_.value() == g_free, "never counted");
}
// Runs of the same span.
V_HARNESS(runs) {
  SpanC* s[B];
  uint8_t len[B];
  size_t n = v::range("n", 1, B);
  for (int i = 0; i < B; i++) s[i] = &sp[v::range("span", 0, 2)];
  int same = RecordSameSpanRuns<kMaxObjectsToMove>(absl::MakeConstSpan(s, n), absl::MakeSpan(len, n));
  int want = 0;
  for (size_t i = 1; i < B; i++) want += i < n && s[i] == s[i - 1] ? 1 : 0;
  V_ASSERT(same == want, "counts equal neighbours");
  size_t i = 0;
  for (int k = 0; k < B; k++) {
    if (i >= n) break;
    size_t l = len[i];
    V_ASSERT(l > 0 && i + l <= n, "the runs cover the batch");
    for (size_t j = 0; j < B; j++) {
      if (j > i && j < i + l) V_ASSERT(s[j] == s[i], "a run is one span");
    }
    i += l;
  }
  V_ASSERT(i == n, "all of it");
}
V_HARNESS(counts) {
  any_list();
  uint64_t req = v::range("req", 0, uint64_t{1} << 40), ret = v::range("ret", 0, uint64_t{1} << 40);
  V_ASSUME(c->num_spans_requested_.value() == static_cast<int64_t>(req));
  V_ASSUME(c->num_spans_returned_.value() == static_cast<int64_t>(ret));
  uint64_t spans = req < ret ? 0 : req - ret;
  V_ASSERT(c->num_spans() == spans, "spans held");
  V_ASSERT(c->OverheadBytes() == spans * ((g_pages * kPageSize) % g_size), "overhead is the tail of each span");
  SpanStats st = c->GetSpanStats();
  V_ASSERT(st.num_spans_requested == req && st.num_spans_returned == ret, "reported as counted");
  V_ASSERT(st.obj_capacity == spans * g_ops, "capacity of the live spans");
  uint16_t w = static_cast<uint16_t>(v::range("w", 1, 16));
  V_ASSERT(c->NumSpansWith(w) == static_cast<size_t>(g_hist[w - 1]), "histogram lookup");
}
