//@ property: C07
//@ variant: default:
//@ variant: small:-DTCMALLOC_INTERNAL_SMALL_BUT_SLOW
//@ variant: large!:-DTCMALLOC_INTERNAL_256K_PAGES
//@ opt: next_.* unroll=5000
//@ opt: (ensure_keeps|stores|set|clear|set_hugepage|register|unregister|ensure_range).* prune=1 vc_timeout=100
//@ assume: the metadata arena is replaced by its contract (fresh non-overlapping memory or null; the arena itself is C13)
//@ assume: register/unregister: spans of 1 to 3 pages anywhere in a leaf, and longer spans at enumerated leaf and node boundaries; Ensure of ranges touching up to 3 leaves; a single radix-tree operation after an arbitrary pair of stores (every leaf entry is independent of the others)
//@ assume: get_next_set_page with the smallest tree the code supports, boundary starting points enumerated, next page arbitrary
// C07: the page map is a total function page -> (span, size class, hugepage
// tracker): absent until stored, and a store changes exactly its own page.
#include "v.h"
#include "tcmalloc/pagemap.h"
#define MetaDataAlloc ArenaMetaDataAlloc  // the arena: its contract below
#include "tcmalloc/pagemap.cc"
#undef MetaDataAlloc
namespace tcmalloc::tcmalloc_internal { Arena Static::arena_; }
using namespace tcmalloc::tcmalloc_internal;

static int g_fail_at, g_allocs;
static size_t g_bytes;
static uint64_t p0[5200], p1[5200], p2[5200], p3[5200], p4[5200];
static inline void* pool(size_t n) {
  if (g_allocs++ == g_fail_at) return nullptr;
  V_ASSERT(n <= sizeof p0, "request fits the test arena");
  g_bytes += n;
  switch (g_allocs) {
    case 1: return p0;
    case 2: return p1;
    case 3: return p2;
    case 4: return p3;
    case 5: return p4;
  }
  return nullptr;
}
static void* TestAlloc(size_t n) { return pool(n); }
void* tcmalloc::tcmalloc_internal::MetaDataAlloc(size_t n) { return pool(n); }
static constexpr int kBits = kAddressBits - kPageShift;
static constexpr uintptr_t kPages = uintptr_t{1} << kBits;
static constexpr uintptr_t kPerHuge = kHugePageSize / kPageSize;
using Map = PageMap3<kBits, TestAlloc>;
static Map m;
static inline void init() {
  g_fail_at = -1; g_allocs = 0; g_bytes = 0;
  // Recycled memory: whatever it held must not show.
  __v_havoc(p0, sizeof p0, "p0"); __v_havoc(p1, sizeof p1, "p1");
  __v_havoc(p2, sizeof p2, "p2"); __v_havoc(p3, sizeof p3, "p3");
  __v_havoc(p4, sizeof p4, "p4");
  new (&m) Map();
}
static Span* any_span(const char* n) { return reinterpret_cast<Span*>(v::range(n, 0, (1ull << 48) - 1)); }
static CompactSizeClass any_sc(const char* n) { return v::any<CompactSizeClass>(n); }
static uintptr_t any_page(const char* n) { return v::range(n, 0, kPages - 1); }

// Every view of one page.
struct View { Span* s; unsigned sc; };
static inline void check(uintptr_t p, View w, const char* what) {
  V_ASSERT(m.get(p) == w.s, what);
  V_ASSERT(m.get_existing(p) == w.s, what);
  V_ASSERT(m.sizeclass(p) == w.sc, what);
  auto a = m.get_existing_with_sizeclass<true>(p);
  V_ASSERT(a.first == w.s && a.second == (int)w.sc, what);
  auto b = m.get_existing_with_sizeclass<false>(p);
  V_ASSERT(b.first == w.s && b.second == (int)w.sc, what);
}
static inline void absent(uintptr_t p, const char* what) {
  V_ASSERT(m.get(p) == nullptr, what);
  V_ASSERT(m.sizeclass(p) == 0, what);
  auto a = m.get_existing_with_sizeclass<true>(p);
  V_ASSERT(a.first == nullptr && a.second == 0, what);
}

V_HARNESS(fresh) {
  init();
  uintptr_t p = v::any<uintptr_t>("p");
  absent(p, "nothing is stored in a new map");
  V_ASSERT(!m.has_leaf(p), "no page of a new map is reserved");
  V_ASSERT(m.bytes_used() == sizeof(Map), "a new map accounts for itself only");
}
V_HARNESS(ensure_one) {
  init();
  uintptr_t k = any_page("k"), p = v::any<uintptr_t>("p");
  bool ok = m.Ensure(k, 1);
  V_ASSERT(ok, "a page can be reserved");
  absent(p, "reserving stores nothing");
  V_ASSERT(m.has_leaf(k), "a reserved page is reported as such");
  check(k, {nullptr, 0}, "a reserved page reads as empty");
  V_ASSERT(m.get_hugepage(k) == nullptr, "a reserved page has no tracker");
  V_ASSERT(m.bytes_used() == sizeof(Map) + g_bytes, "metadata bytes are accounted exactly");
  V_ASSERT(m.Ensure(k, 1), "reserving again succeeds");
  V_ASSERT(m.bytes_used() == sizeof(Map) + g_bytes && g_allocs == 2, "reserving again allocates nothing");
}
// Reservation of ranges touching several leaves.
static inline void ensure_range(uintptr_t leaf_lo, uintptr_t leaf_hi, size_t lo, size_t hi, int leaves) {
  init();
  constexpr size_t kLeaf = size_t{1} << ((kBits + 2) / 3);
  uintptr_t k = leaf_lo * kLeaf + v::range("k", 0, (leaf_hi - leaf_lo) * kLeaf + kLeaf - 1);
  size_t n = v::range("n", lo, hi);
  V_ASSUME((k + n - 1) / kLeaf - k / kLeaf == (size_t)leaves - 1);
  uintptr_t p = v::any<uintptr_t>("p");
  bool ok = m.Ensure(k, n);
  V_ASSERT(ok == (k + n <= kPages), "a range is reserved exactly if it lies in the address space");
  absent(p, "reserving stores nothing");
  if (ok) {
    if (p >= k && p < k + n) {
      V_ASSERT(m.has_leaf(p), "every page of a reserved range is reserved");
      check(p, {nullptr, 0}, "a reserved page reads as empty");
    }
    V_ASSERT(m.bytes_used() == sizeof(Map) + g_bytes, "metadata bytes are accounted exactly");
  }
}
static constexpr uintptr_t kLeafPages = uintptr_t{1} << ((kBits + 2) / 3);
V_HARNESS(ensure_range_one) { ensure_range(0, kPages / kLeafPages - 1, 1, kLeafPages, 1); }
V_HARNESS(ensure_range_two) { ensure_range(5, 5, 2, kLeafPages + 1, 2); }
V_HARNESS(ensure_range_node) { ensure_range(kLeafPages - 1, kLeafPages - 1, 2, kLeafPages + 1, 2); }
V_HARNESS(ensure_range_three) { ensure_range(kLeafPages - 2, kLeafPages - 2, kLeafPages + 2, 2 * kLeafPages + 1, 3); }
V_HARNESS(ensure_range_end) { ensure_range(kPages / kLeafPages - 1, kPages / kLeafPages - 1, 2, kLeafPages, 2); }

// Reservation on top of a populated map, possibly failing: what is stored
// stays.
static constexpr int kLf = (kBits + 2) / 3;
// How two pages lie in the tree.
enum Where { kSameLeaf, kSameNode, kApart };
static inline void relate(uintptr_t a, uintptr_t b, Where w) {
  bool leaf = (a >> kLf) == (b >> kLf), node = (a >> (2 * kLf)) == (b >> (2 * kLf));
  V_ASSUME(w == kSameLeaf ? leaf : w == kSameNode ? (node & !leaf) : !node);
}
static inline void ensure_keeps(Where w) {
  init();
  uintptr_t k = any_page("k"), q = any_page("q");
  relate(k, q, w);
  m.Ensure(k, 1);
  Span* s = any_span("s"); auto sc = any_sc("sc"); void* h = any_span("h");
  m.set_with_sizeclass(k, s, sc);
  m.set_hugepage(k, h);
  g_fail_at = v::range("fail", 2, 4);
  bool ok = m.Ensure(q, 1);
  V_ASSERT(ok == (g_fail_at >= g_allocs), "reservation fails exactly if the arena fails");
  check(k, {s, sc}, "reserving disturbs no stored page");
  V_ASSERT(m.get_hugepage(k) == h, "reserving disturbs no tracker");
  if (ok) {
    V_ASSERT(m.has_leaf(q), "reserved");
    if (q != k) check(q, {nullptr, 0}, "a reserved page reads as empty");
  }
  V_ASSERT(m.bytes_used() == sizeof(Map) + g_bytes, "metadata bytes are accounted exactly");
}
V_HARNESS(ensure_keeps_leaf) { ensure_keeps(kSameLeaf); }
V_HARNESS(ensure_keeps_node) { ensure_keeps(kSameNode); }
V_HARNESS(ensure_keeps_apart) { ensure_keeps(kApart); }
// Two pages holding arbitrary values, then one operation.
struct Two {
  uintptr_t k, p;
  View wk, wp;
  void* hp;
  explicit Two(Where w) {
    init();
    k = any_page("k"); p = any_page("p");
    relate(k, p, w);
    m.Ensure(k, 1); m.Ensure(p, 1);
    wk = {any_span("sk"), any_sc("ck")};
    wp = {any_span("sp"), any_sc("cp")};
    hp = any_span("hp");
    m.set_with_sizeclass(p, wp.s, wp.sc);
    m.set_with_sizeclass(k, wk.s, wk.sc);
    if (p == k) wp = wk;
    m.set_hugepage(p, hp);
  }
};
static inline void op_stores(Where w) {
  Two t(w);
  check(t.p, t.wp, "a page reads as what was stored for it");
  check(t.k, t.wk, "a page reads as what was stored for it");
  V_ASSERT(m.get_hugepage(t.p) == t.hp, "the tracker stored is the tracker read");
  uintptr_t q = v::any<uintptr_t>("q");
  if (q != t.p && q != t.k) absent(q, "other pages read as absent");
}
static inline void op_set(Where w) {
  Two t(w);
  V_ASSUME(t.wk.sc == 0);
  Span* s = any_span("s");
  m.set(t.k, s);
  check(t.k, {s, 0}, "set stores the span");
  check(t.p, t.p == t.k ? View{s, 0} : t.wp, "set changes only its page");
  V_ASSERT(m.get_hugepage(t.p) == t.hp, "set changes no tracker");
}
static inline void op_clear(Where w) {
  Two t(w);
  m.clear_sizeclass(t.k);
  check(t.k, {t.wk.s, 0}, "clearing the size class clears it in every view and keeps the span");
  check(t.p, t.p == t.k ? View{t.wk.s, 0} : t.wp, "clearing changes only its page");
}
static inline void op_set_hugepage(Where w) {
  Two t(w);
  void* h = any_span("h");
  m.set_hugepage(t.k, h);
  V_ASSERT(m.get_hugepage(t.k) == h, "the tracker stored is the tracker read");
  V_ASSERT(m.get_hugepage(t.p) == (t.p / kPerHuge == t.k / kPerHuge ? h : t.hp),
           "a tracker is shared by exactly the pages of its hugepage");
  check(t.p, t.wp, "trackers do not disturb spans");
  check(t.k, t.wk, "trackers do not disturb spans");
}
#define THREE(n) \
  V_HARNESS(n##_leaf) { op_##n(kSameLeaf); } V_HARNESS(n##_node) { op_##n(kSameNode); } V_HARNESS(n##_apart) { op_##n(kApart); }
THREE(stores)
THREE(set)
THREE(clear)
THREE(set_hugepage)

// ---- registration of whole spans, through the public PageMap
static PageMap pm;
// f: first page (arbitrary within one leaf, or next to a leaf boundary), n
// pages; q: another page of the neighbouring leaves holding another span.
static inline void reg(uintptr_t f, size_t n, bool unreg) {
  init();
  new (&pm) PageMap();
  VObj<Span> o;
  Span* s = new (&o.v) Span(Range(PageId{f}, Length(n)));
  Span* other = any_span("other");
  uintptr_t q = (f & ~(kLeafPages - 1)) + v::range("q", 0, kLeafPages - 1);
  V_ASSUME(q < f || q >= f + n);
  pm.Ensure(Range(PageId{f}, Length(n)));
  pm.Set(PageId{q}, other);
  pm.Set(PageId{f}, s);
  size_t sc = v::range("sc", 1, kNumClasses - 1);
  pm.RegisterSizeClass(s, sc);
  for (size_t i = 0; i < n; i++) {
    PageId p{f + i};
    V_ASSERT(pm.GetDescriptor(p) == s, "every page of a registered span maps to it");
    V_ASSERT(pm.sizeclass(p) == sc, "every page of a registered span has its class");
    auto d = pm.GetDescriptorAndSizeClass(p);
    V_ASSERT((d.first == s) & (d.second == sc), "span and class agree");
    auto e = pm.GetExistingDescriptorAndSizeClass(p);
    V_ASSERT((e.first == s) & (e.second == sc), "span and class agree");
    V_ASSERT(pm.GetExistingDescriptor(p) == s, "every page of a registered span maps to it");
  }
  V_ASSERT(pm.GetDescriptor(PageId{q}) == other, "registering touches only the span's pages");
  V_ASSERT(pm.sizeclass(PageId{q}) == 0, "registering touches only the span's pages");
  if (!unreg) return;
  pm.UnregisterSizeClass(s);
  for (size_t i = 0; i < n; i++) {
    auto d = pm.GetDescriptorAndSizeClass(PageId{f + i});
    V_ASSERT(d.second == 0, "no page of an unregistered span has a class");
    V_ASSERT(d.first == s, "unregistering keeps the spans");
    V_ASSERT(pm.sizeclass(PageId{f + i}) == 0, "no page of an unregistered span has a class");
  }
  V_ASSERT(pm.GetDescriptor(PageId{q}) == other, "unregistering touches only the span's pages");
}
static inline uintptr_t in_leaf(size_t n) { return 3 * kLeafPages + v::range("f", 0, kLeafPages - n); }
V_HARNESS(register_1) { reg(in_leaf(1), 1, false); }
V_HARNESS(register_2) { reg(in_leaf(2), 2, false); }
V_HARNESS(register_3) { reg(in_leaf(3), 3, false); }
V_HARNESS(register_cross) { reg(7 * kLeafPages - 2, 4, false); }
V_HARNESS(unregister_1) { reg(in_leaf(1), 1, true); }
V_HARNESS(unregister_2) { reg(in_leaf(2), 2, true); }
V_HARNESS(unregister_3) { reg(in_leaf(3), 3, true); }
V_HARNESS(unregister_cross) { reg(7 * kLeafPages - 2, 4, true); }
V_HARNESS(unregister_node) { reg(kLeafPages * kLeafPages - 1, 3, true); }
V_HARNESS(register_long) { reg(7 * kLeafPages - 20, 37, true); }

// ---- iteration, on the smallest tree the code supports
static constexpr int kSmall = 3 * (kHugePageShift - kPageShift) - 2;
using MapS = PageMap3<kSmall, TestAlloc>;
static MapS ms;
static constexpr uintptr_t kL = uintptr_t{1} << ((kSmall + 2) / 3);
static inline void next(uintptr_t from, uintptr_t base) {
  g_fail_at = -1; g_allocs = 0;
  __v_havoc(p0, sizeof p0, "p0"); __v_havoc(p1, sizeof p1, "p1");
  __v_havoc(p2, sizeof p2, "p2"); __v_havoc(p3, sizeof p3, "p3");
  new (&ms) MapS();
  uintptr_t q = base + v::range("q", 0, 3);
  ms.Ensure(from, 1);
  ms.Ensure(base, 1);
  ms.set(from, reinterpret_cast<Span*>(uintptr_t{8}));
  Span* s = any_span("s");
  V_ASSUME(s != nullptr);
  ms.set(q, s);
  auto r = ms.get_next_set_page(from);
  if (q > from) {
    V_ASSERT(r.has_value() && *r == q, "iteration visits the next stored page");
  } else {
    V_ASSERT(!r.has_value(), "iteration ends after the last stored page");
  }
}
V_HARNESS(next_adjacent) { next(5, 4); }
V_HARNESS(next_leaf_end) { next(kL - 1, kL); }
V_HARNESS(next_far_leaf) { next(7, 9 * kL); }
V_HARNESS(next_node_end) { next(kL * kL - 1, kL * kL); }
V_HARNESS(next_far_node) { next(kL * kL + kL + 1, 3 * kL * kL + 2 * kL); }
V_HARNESS(next_same_leaf_end) { next(kL + 1, 2 * kL - 4); }
V_HARNESS(next_last) { next((uintptr_t{1} << kSmall) - 9, (uintptr_t{1} << kSmall) - 4); }
V_HARNESS(next_none) { next((uintptr_t{1} << kSmall) - 5, 0); }
