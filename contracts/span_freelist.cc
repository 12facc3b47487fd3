//@ property: C09
//@ level: other
//@ repo: tcmalloc/span.cc tcmalloc/size_classes.cc tcmalloc/legacy_size_classes.cc tcmalloc/reuse_relaxed_below_64_size_classes.cc tcmalloc/experimental_pow2_size_class.cc
//@ variant: default:
//@ variant: small:-DTCMALLOC_INTERNAL_SMALL_BUT_SLOW
//@ variant: legacy:-DTCMALLOC_INTERNAL_LEGACY_LOCKING
//@ variant: medium!:-DTCMALLOC_INTERNAL_32K_PAGES
//@ opt: .* unroll=100000
//@ assume: AllocatedBytes() only feeds sampling statistics (stand-in)
#include "v.h"
#include <type_traits>
#include "tcmalloc/span.h"
#include "tcmalloc/sizemap.h"
#include "tcmalloc/static_vars.h"

namespace tcmalloc::tcmalloc_internal {
double AllocatedBytes(const StackTrace&) { return 8; }
[[noreturn]] void ReportDoubleFree(Static&, const void*) {
  V_ASSERT(false, "no double free is reported");
  __builtin_trap();
}
StatsCounter Static::sampled_objects_size_, Static::total_sampled_count_;

// The representation of a span's free list.
class SpanTestPeer {
 public:
  static constexpr size_t kCache = Span::kCacheSize, kBits = Span::kBitmapSize;
  static size_t cache_size(const Span& s) { return s.cache_size_; }
  static void set_cache_size(Span& s, size_t n) { s.cache_size_ = n; }
  static Span::ObjIdx* cache(Span& s) { return s.list_.cache; }
  static uint16_t& freelist(Span& s) { return s.freelist_; }
  static uint16_t& embed(Span& s) { return s.embed_count_; }
  static Bitmap<kBits>& bits(Span& s) { return s.bitmap_; }
  static void set_allocated(Span& s, size_t n) { s.allocated_.store(n, std::memory_order_relaxed); }
};
}  // namespace tcmalloc::tcmalloc_internal
using namespace tcmalloc::tcmalloc_internal;
using Peer = SpanTestPeer;
using ObjIdx = Span::ObjIdx;
static constexpr ObjIdx kEnd = -1;
static constexpr size_t kPage = 0x123000;         // any page would do: the list form holds offsets only
static constexpr uintptr_t kStart = kPage << kPageShift;
static constexpr size_t kUnit = static_cast<size_t>(kAlignment);

static ObjIdx* g_mem;   // the page
static void page_memory() { g_mem = static_cast<ObjIdx*>(__v_region(kStart, kPageSize, 2, "page")); }
template <typename T> static absl::Span<T> span_of(T* p, size_t n) { return absl::Span<T>(p, n); }

// ---------------------------------------------------------------------------
// Carving: each object exactly once, between the batch and later pops.
static inline void carve(size_t size, size_t pages, size_t n) {
  size_t count = pages * kPageSize / size;
  Span s(Range{PageId(kPage), Length(pages)});
  void** batch = static_cast<void**>(__v_arr(8, 128, "batch"));
  unsigned char* seen = static_cast<unsigned char*>(__v_malloc(count));
  for (size_t i = 0; i < count; i++) seen[i] = 0;
  size_t out = s.BuildFreelist(size, count, span_of(batch, n), v::any<uint64_t>("time"));
  V_ASSERT(out == (n < count ? n : count), "the batch is filled as far as there are objects");
  size_t total = 0, got = out;
  while (true) {
    for (size_t i = 0; i < got; i++) {
      size_t off = reinterpret_cast<uintptr_t>(batch[i]) - kStart;
      V_ASSERT(off % size == 0 && off / size < count, "only objects of the span come out");
      V_ASSERT(seen[off / size] == 0, "no object comes out twice");
      seen[off / size] = 1;
    }
    total += got;
    V_ASSERT(s.Allocated() == total, "live count");
    V_ASSERT(s.FreelistEmpty(size, count) == (total == count), "empty exactly when all objects are out");
    V_ASSERT(total <= count, "no more objects than there are");
    if (total == count) break;
    got = s.FreelistPopBatch(span_of(batch, 32), size);
    V_ASSERT(got == (count - total < 32 ? count - total : 32), "pops as many as asked and available");
    if (got == 0) break;
  }
  V_ASSERT(s.FreelistPopBatch(span_of(batch, 5), size) == 0, "nothing is left");
}
static inline void carve_table(const SizeClasses& t, bool lists, size_t stride) {
  page_memory();
  for (size_t c = 1; c < t.classes.size(); c++) {
    size_t size = t.classes[c].size, pages = t.classes[c].bytes / Bytes(kPageSize);
    if (Span::UseBitmapForSize(size) == lists) continue;
    if (c % stride != 0 && !lists) continue;
    carve(size, pages, t.classes[c].num_to_move);
    carve(size, pages, 1);
#ifdef V_THOROUGH
    carve(size, pages, 128);
    carve(size, pages, 2);
#endif
  }
}
V_HARNESS(carve_lists) { carve_table(kSizeClasses, true, 1); }
V_HARNESS(carve_lists_legacy) { carve_table(kLegacySizeClasses, true, 1); }
V_HARNESS(carve_bitmaps) { carve_table(kSizeClasses, false, 1); }
#ifdef V_THOROUGH
V_HARNESS(carve_bitmaps_legacy) { carve_table(kLegacySizeClasses, false, 1); }
V_HARNESS(carve_lists_relaxed) { carve_table(kReuseRelaxedBelow64SizeClasses, true, 1); }
V_HARNESS(carve_bitmaps_relaxed) { carve_table(kReuseRelaxedBelow64SizeClasses, false, 1); }
V_HARNESS(carve_lists_pow2) { carve_table(kExperimentalPow2SizeClasses, true, 1); }
V_HARNESS(carve_bitmaps_pow2) { carve_table(kExperimentalPow2SizeClasses, false, 1); }
#endif

// ---------------------------------------------------------------------------
// List form: an arbitrary state with a given shape (cached entries, hosts and
// entries in the first host); which objects are listed is arbitrary.
struct Shape {
  size_t size, hosts, embed, cached, layout;
};
static size_t max_embed(size_t size) { return size / 2 - 1; }
// Entries are any indices of the page (more states than can arise).
static ObjIdx any_obj(const Shape&) { return v::range("obj", 0, kPageSize / kUnit - 1); }
// Where the objects that are written to (hosts, then pushed objects) lie.
static ObjIdx place(const Shape& h, size_t i) {
  size_t count = kPageSize / h.size;
  return (h.layout == 0 ? i : h.layout == 1 ? count - 1 - i : (count / 2 + 5 * i) % count) * (h.size / kUnit);
}
static ObjIdx* host(ObjIdx i) { return g_mem + i * (kUnit / 2); }
static size_t total(const Shape& h) {
  return h.cached + (h.hosts ? h.hosts + h.embed + (h.hosts - 1) * max_embed(h.size) : 0);
}
static void any_list(Span& s, const Shape& h) {
  page_memory();
  Peer::set_cache_size(s, h.cached);
  for (size_t i = 0; i < h.cached; i++) Peer::cache(s)[i] = any_obj(h);
  ObjIdx idx[8];
  for (size_t i = 0; i < h.hosts; i++) idx[i] = place(h, i);
  Peer::freelist(s) = h.hosts ? idx[0] : kEnd;
  Peer::embed(s) = h.embed;
  for (size_t i = 0; i < h.hosts; i++) {
    ObjIdx* p = host(idx[i]);
    p[0] = i + 1 < h.hosts ? idx[i + 1] : kEnd;
    size_t n = i == 0 ? h.embed : max_embed(h.size);
    for (size_t k = 1; k <= n; k++) p[k] = any_obj(h);
  }
}
// How often object x is on the list; the list has at most `hosts` hosts.
static uintptr_t at(ObjIdx i) { return kStart + (static_cast<uintptr_t>(i) << kAlignmentShift); }
static size_t times(Span& s, const Shape& h, size_t hosts, ObjIdx x, bool* ended) {
  size_t n = 0, cs = Peer::cache_size(s);
  for (size_t i = 0; i < Peer::kCache; i++) n += (i < cs) & (at(Peer::cache(s)[i]) == at(x));
  ObjIdx f = Peer::freelist(s);
  size_t e = Peer::embed(s);
  for (size_t i = 0; i < hosts; i++) {
    if (f == kEnd) break;
    n += at(f) == at(x);
    for (size_t k = 1; k <= max_embed(h.size); k++) n += (k <= e) & (at(host(f)[k]) == at(x));
    e = max_embed(h.size);
    f = host(f)[0];
  }
  *ended = f == kEnd;
  return n;
}
static inline void pop_list(Shape h, size_t n) {
  Span s(Range(PageId(kPage), Length(1)));
  any_list(s, h);
  size_t count = kPageSize / h.size, free = total(h);
  Peer::set_allocated(s, count - free);
  ObjIdx x = any_obj(h);
  bool end;
  size_t before = times(s, h, h.hosts, x, &end);
  void* out[128];
  size_t r = s.FreelistPopBatch(span_of(out, n), h.size);
  V_ASSERT(r == (n < free ? n : free), "pops as many as asked and available");
  size_t got = 0;
  for (size_t i = 0; i < r; i++) got += reinterpret_cast<uintptr_t>(out[i]) == at(x);
  V_ASSERT(times(s, h, h.hosts, x, &end) + got == before, "an object popped leaves the free list, once, and no other does");
  V_ASSERT(end, "the free list is well formed");
  V_ASSERT(s.Allocated() == count - free + r, "live count");
  V_ASSERT(s.FreelistEmpty(h.size, count) == (r == free), "empty exactly when no object is free");
}
#ifdef V_THOROUGH
#define V_STEP (n < 6 || n + 6 > total(h) ? 1 : 4)
#else
#define V_STEP (n < 3 || n + 3 > total(h) ? 1 : 7)
#endif
static inline void pop_lists(size_t size, size_t hosts) {
  for (size_t e = 0; e <= max_embed(size); e += e + 2 < max_embed(size) && e > 0 ? max_embed(size) - 2 : 1)
    for (size_t c = 0; c <= Peer::kCache; c += c == 0 ? 1 : c == 1 ? Peer::kCache - 2 : 1) {
      if (hosts == 0 && e > 0) continue;
      Shape h{size, hosts, e, c, (e + c) % 3};
      for (size_t n = 1; n <= total(h) + 1; n += V_STEP) pop_list(h, n);
    }
}
V_HARNESS(pop_list_0) { pop_lists(16, 0); }
V_HARNESS(pop_list_8_1) { pop_lists(8, 1); }
V_HARNESS(pop_list_8_3) { pop_lists(8, 3); }
V_HARNESS(pop_list_16_2) { pop_lists(16, 2); }
#if TCMALLOC_PAGE_SHIFT > 12
V_HARNESS(pop_list_40_1) { pop_lists(40, 1); }
V_HARNESS(pop_list_24_2) { pop_lists(24, 2); }
#endif

template <typename T>
static inline void push_list(Shape h, size_t n) {
  Span s(Range(PageId(kPage), Length(1)));
  any_list(s, h);
  size_t count = kPageSize / h.size, live = count - total(h);
  Peer::set_allocated(s, live);
  T in[16];
  ObjIdx idx[16];
  for (size_t i = 0; i < n; i++) {
    idx[i] = place(h, h.hosts + i);
    if constexpr (std::is_same_v<T, void*>) in[i] = reinterpret_cast<void*>(kStart + idx[i] * kUnit);
    else in[i] = idx[i];
  }
  ObjIdx x = any_obj(h);
  bool end;
  size_t before = times(s, h, h.hosts, x, &end);
  bool ok = s.FreelistPushBatch(span_of(in, n), h.size, Span::CalcReciprocal(h.size));
  V_ASSERT(ok == (n != live), "reported completely free exactly when the last live object comes back");
  if (!ok) return;
  size_t put = 0;
  for (size_t i = 0; i < n; i++) put += at(idx[i]) == at(x);
  V_ASSERT(times(s, h, h.hosts + n, x, &end) == before + put, "an object pushed is free again, once, and no other changes");
  V_ASSERT(end, "the free list is well formed");
  V_ASSERT(s.Allocated() == live - n, "live count");
  V_ASSERT(!s.FreelistEmpty(h.size, count), "not empty after a push");
  V_ASSERT(Peer::cache_size(s) <= Peer::kCache, "the cache holds what fits");
}
template <typename T>
static inline void push_lists(size_t size, size_t hosts, size_t most) {
  for (size_t e = 0; e <= max_embed(size); e += e + 2 < max_embed(size) && e > 0 ? max_embed(size) - 2 : 1)
    for (size_t c = 0; c <= Peer::kCache; c += c == 0 ? Peer::kCache - 1 : 1) {
      if (hosts == 0 && e > 0) continue;
      for (size_t n = 1; n <= most; n++) push_list<T>(Shape{size, hosts, e, c, (e + c + n) % 3}, n);
    }
}
V_HARNESS(push_list_ptr_0) { push_lists<void*>(16, 0, 3); }
V_HARNESS(push_list_ptr_8_1) { push_lists<void*>(8, 1, 4); }
V_HARNESS(push_list_ptr_16_2) { push_lists<void*>(16, 2, 3); }
V_HARNESS(push_list_idx_0) { push_lists<ObjIdx>(16, 0, 3); }
V_HARNESS(push_list_idx_8_1) { push_lists<ObjIdx>(8, 1, 4); }
V_HARNESS(push_list_idx_16_2) { push_lists<ObjIdx>(16, 2, 3); }
#if TCMALLOC_PAGE_SHIFT > 12
V_HARNESS(push_list_ptr_24_1) { push_lists<void*>(24, 1, 2); }
#endif
// The last live objects come back.
V_HARNESS(push_last) {
  size_t sizes[] = {8, 16, 4096};
  for (size_t size : sizes) {
    Span s(Range(PageId(kPage), Length(1)));
    size_t n = v::range("n", 1, 4), live = v::range("live", 1, 4);
    V_ASSUME(n == live);
    Peer::set_allocated(s, live);
    void* in[4];
    for (auto& p : in) p = reinterpret_cast<void*>(kStart);
    V_ASSERT(!s.FreelistPushBatch(span_of(in, n), size, Span::CalcReciprocal(size)), "completely free");
  }
}

// ---------------------------------------------------------------------------
// Bitmap form: an arbitrary bitmap.
static inline void bitmap_state(Span& s, size_t size, size_t count, size_t* free) {
  constexpr size_t kB = Peer::kBits;
  auto& b = Peer::bits(s);
  __v_havoc(&b, sizeof b, "bits");
  size_t z = b.FindSet(count < kB ? count : kB - 1);
  V_ASSUME(count >= kB || z >= kB);      // no bit beyond the objects
  *free = b.CountBits();
  Peer::set_allocated(s, count - *free);
}
static inline void pop_bitmap(size_t size, size_t pages, size_t n) {
  size_t count = pages * kPageSize / size, free;
  Span s(Range{PageId(kPage), Length(pages)});
  bitmap_state(s, size, count, &free);
  size_t x = v::range("x", 0, count - 1);
  bool before = Peer::bits(s).GetBit(x);
  void* out[128];
  size_t r = s.FreelistPopBatch(span_of(out, n), size);
  V_ASSERT(r == (n < free ? n : free), "pops as many as asked and available");
  size_t got = 0;
  for (size_t i = 0; i < n; i++) got += (i < r) & (reinterpret_cast<uintptr_t>(out[i]) == kStart + x * size);
  V_ASSERT(Peer::bits(s).GetBit(x) + got == before, "an object popped leaves the free list, once, and no other does");
  V_ASSERT(s.Allocated() == count - free + r, "live count");
  V_ASSERT(s.FreelistEmpty(size, count) == (r == free), "empty exactly when no object is free");
}
template <typename T>
static inline void push_bitmap(size_t size, size_t pages, size_t n) {
  size_t count = pages * kPageSize / size, free;
  Span s(Range{PageId(kPage), Length(pages)});
  bitmap_state(s, size, count, &free);
  size_t x = v::range("x", 0, count - 1), live = count - free;
  V_ASSUME(n <= live);
  bool before = Peer::bits(s).GetBit(x);
  T in[4];
  size_t put = 0, idx[4];
  for (size_t i = 0; i < n; i++) {
    idx[i] = v::range("obj", 0, count - 1);
    V_ASSUME(!Peer::bits(s).GetBit(idx[i]));
    for (size_t j = 0; j < i; j++) V_ASSUME(idx[i] != idx[j]);
    put += idx[i] == x;
    if constexpr (std::is_same_v<T, void*>) in[i] = reinterpret_cast<void*>(kStart + idx[i] * size);
    else in[i] = idx[i];
  }
  bool ok = s.FreelistPushBatch(span_of(in, n), size, Span::CalcReciprocal(size));
  V_ASSERT(ok == (n != live), "reported completely free exactly when the last live object comes back");
  if (!ok) return;
  V_ASSERT(Peer::bits(s).GetBit(x) == before + put, "an object pushed is free again, once, and no other changes");
  V_ASSERT(s.Allocated() == live - n, "live count");
  V_ASSERT(!s.FreelistEmpty(size, count), "not empty after a push");
}
V_HARNESS(pop_bitmap_64) { pop_bitmap(64, 1, 2); }
V_HARNESS(pop_bitmap_4096) { pop_bitmap(4096, 4, 3); }
V_HARNESS(push_bitmap_ptr_64) { push_bitmap<void*>(64, 1, 1); }
V_HARNESS(push_bitmap_idx_64) { push_bitmap<ObjIdx>(64, 1, 1); }
#ifdef V_THOROUGH
V_HARNESS(push_bitmap_ptr_64_2) { push_bitmap<void*>(64, 1, 2); }
V_HARNESS(push_bitmap_idx_64_2) { push_bitmap<ObjIdx>(64, 1, 2); }
#endif
V_HARNESS(push_bitmap_ptr_4096) { push_bitmap<void*>(4096, 4, 3); }
