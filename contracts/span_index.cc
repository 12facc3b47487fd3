//@ property: C08
//@ repo: tcmalloc/span.cc tcmalloc/size_classes.cc tcmalloc/legacy_size_classes.cc tcmalloc/reuse_relaxed_below_64_size_classes.cc tcmalloc/experimental_pow2_size_class.cc
//@ variant: default:
//@ variant: small:-DTCMALLOC_INTERNAL_SMALL_BUT_SLOW
//@ variant: large:-DTCMALLOC_INTERNAL_256K_PAGES
//@ variant: legacy:-DTCMALLOC_INTERNAL_LEGACY_LOCKING
//@ variant: medium!:-DTCMALLOC_INTERNAL_32K_PAGES
//@ variant: large8!:-DTCMALLOC_INTERNAL_256K_PAGES -fnew-alignment=8
//@ variant: medium8!:-DTCMALLOC_INTERNAL_32K_PAGES -fnew-alignment=8
//@ assume: AllocatedBytes() only feeds sampling statistics (stand-in)
//@ opt: .* unroll=100000
#include "v.h"
#include "tcmalloc/span.h"
#include "tcmalloc/sizemap.h"
#include "tcmalloc/static_vars.h"
using namespace tcmalloc::tcmalloc_internal;
using tcmalloc::tcmalloc_internal::Span;

namespace tcmalloc::tcmalloc_internal {
// Only feeds statistics.
double AllocatedBytes(const StackTrace&) { return 8; }
StatsCounter Static::sampled_objects_size_, Static::total_sampled_count_;
}

static constexpr size_t kPageIds = size_t{1} << (kAddressBits - kPageShift);

static PageId any_page(size_t n) {
  size_t p = v::any<size_t>("page");
  V_ASSUME(p > 0 && p < kPageIds && n <= kPageIds - p);
  return PageId(p);
}

// Object number <-> address for every object of one size, in a span anywhere.
static inline void size_class(Span& s, size_t start, size_t size, size_t pages) {
  s.set_num_pages(Length(pages));
  size_t objects = pages * kPageSize / size;
  uint32_t r = Span::CalcReciprocal(size);
  if (!Span::UseBitmapForSize(size)) {
    V_ASSERT(pages == 1, "spans of list form have one page");
    size_t i = v::range("i", 0, objects - 1), j = v::range("j", 0, objects - 1);
    char* p = reinterpret_cast<char*>(start + i * size);
    Span::ObjIdx x = s.PtrToIdx(p, size), y = s.PtrToIdx(reinterpret_cast<char*>(start + j * size), size);
    V_ASSERT(reinterpret_cast<char*>(s.IdxToPtr(x, size, start)) == p, "index and address are inverse");
    V_ASSERT((i == j) == (x == y), "distinct objects have distinct indices");
    V_ASSERT(x != static_cast<Span::ObjIdx>(-1), "the end marker is no object's index");
    return;
  }
  for (size_t i = 0; i < objects; i++) {
    char* p = reinterpret_cast<char*>(start + i * size);
    V_ASSERT(s.BitmapPtrToIdx(p, size, r) == i, "the index of an object is the exact quotient");
    V_ASSERT(s.BitmapIdxToPtr(i, size) == p, "the address of an index is that of the object");
  }
}
static inline void table(const SizeClasses& t) {
  Span s(Range(PageId(v::range("page", 1, kPageIds - 62)), Length(1)));
  size_t start = s.first_page().start_uintptr();
  for (size_t c = 1; c < t.classes.size(); c++) {
    size_t size = t.classes[c].size, pages = t.classes[c].bytes / Bytes(kPageSize);
    V_ASSERT(Span::IsValidSizeClass(size, Length(pages)), "the class suits spans");
    size_class(s, start, size, pages);
  }
}
V_HARNESS(reuse) { table(kSizeClasses); }
V_HARNESS(legacy) { table(kLegacySizeClasses); }
V_HARNESS(relaxed) { table(kReuseRelaxedBelow64SizeClasses); }
V_HARNESS(pow2) { table(kExperimentalPow2SizeClasses); }

// The range of a span.
static void is(const Span& s, PageId p, size_t n) {
  V_ASSERT(s.first_page() == p, "first page");
  V_ASSERT(s.num_pages() == Length(n), "number of pages");
  V_ASSERT(s.last_page() == p + Length(n - 1), "last page");
  V_ASSERT(s.bytes_in_span() == n * kPageSize, "bytes");
  V_ASSERT(s.start_address() == p.start_addr(), "start address");
}
V_HARNESS(range) {
  size_t n = v::any<size_t>("n");
  V_ASSUME(n > 0);
  PageId p = any_page(n);
  Span s(Range(p, Length(n)));
  is(s, p, n);
  V_ASSERT(!s.sampled() && s.Unsample() == nullptr, "a new span is not sampled");
  s.set_donated(v::any_bool("donated"));
  s.set_nonempty_index(v::range("index", 0, (1 << Span::kNonemptyIndexBits) - 1));
  is(s, p, n);
  size_t m = v::any<size_t>("m");
  V_ASSUME(m > 0);
  PageId q = any_page(m);
  s.set_first_page(q);
  s.set_num_pages(Length(m));
  is(s, q, m);
}
// Sampling keeps the range and gives the allocation back.
V_HARNESS(sample) {
  size_t n = v::any<size_t>("n");
  V_ASSUME(n > 0);
  PageId p = any_page(n);
  Span s(Range(p, Length(n)));
  VObj<SampledAllocation> a;
  s.Sample(&a.v);
  V_ASSERT(s.sampled() && &s.sampled_allocation() == &a.v, "the span holds its sample");
  is(s, p, n);
  V_ASSERT(s.Unsample() == &a.v, "the sample comes back");
  V_ASSERT(!s.sampled() && s.Unsample() == nullptr, "once");
  is(s, p, n);
}
