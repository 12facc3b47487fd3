//@ property: C02
//@ variant: default:-DV_PAIRS
//@ variant: 32k:-DTCMALLOC_INTERNAL_32K_PAGES
//@ variant: 256k:-DTCMALLOC_INTERNAL_256K_PAGES
//@ variant: small:-DTCMALLOC_INTERNAL_SMALL_BUT_SLOW
//@ assume: hugepage and page numbers whose addresses are representable; range predicates for non-empty ranges that do not wrap; floating-point conversions (in_mib, HugeLength(double)) are outside
// C02: Length, PageId, HugeLength, HugePage, HugeRange.
#include "v.h"
#include <limits>
#include "tcmalloc/huge_pages.h"
#include "tcmalloc/pages.h"
using namespace tcmalloc::tcmalloc_internal;
using u128 = unsigned __int128;
static constexpr uint64_t kP = kPageSize, kH = kHugePageSize, kPer = kHugePageSize / kPageSize;
static constexpr uint64_t kMaxPn = ~0ull / kPageSize, kMaxHp = ~0ull / kHugePageSize;
static PageId any_page(const char* n) { return PageId(v::range(n, 0, kMaxPn)); }
static HugePage any_hp(const char* n) { return HugePage{v::range(n, 0, kMaxHp)}; }

V_HARNESS(bytes_to_pages) {
  uint64_t b = v::any<uint64_t>("bytes");
  uint64_t c = BytesToLengthCeil(b).raw_num(), f = BytesToLengthFloor(b).raw_num();
  V_ASSERT(u128(c) * kP >= b && (c == 0 || u128(c - 1) * kP < b), "BytesToLengthCeil is the ceiling");
  V_ASSERT(u128(f) * kP <= b && u128(f + 1) * kP > b, "BytesToLengthFloor is the floor");
  V_ASSERT(LengthFromBytes(b) == Length(f), "LengthFromBytes is the floor");
  V_ASSERT(BytesToLengthCeil(static_cast<std::align_val_t>(b)) == Length(c), "alignments convert like bytes");
  V_ASSERT(BytesToLengthCeil(Bytes(b)) == Length(c) && BytesToLengthFloor(Bytes(b)) == Length(f), "Bytes convert like bytes");
  uint64_t n = v::range("n", 0, kMaxPn);
  V_ASSERT(Length(n).in_bytes() == n * kP && u128(n) * kP == n * kP, "in_bytes is exact");
  V_ASSERT(BytesToLengthCeil(Length(n).in_bytes()) == Length(n), "a whole number of pages converts back");
  V_ASSERT(Length::max().raw_num() == kMaxPn && Length::min().raw_num() == 0, "the largest length is the address space");
}
V_HARNESS(page_addresses) {
  uint64_t a = v::any<uint64_t>("addr");
  void* p = reinterpret_cast<void*>(a);
  PageId pg = PageIdContaining(p);
  V_ASSERT(pg.start_uintptr() <= a && a - pg.start_uintptr() < kP, "the page containing an address contains it");
  V_ASSERT(pg.start_uintptr() % kP == 0 && reinterpret_cast<uint64_t>(pg.start_addr()) == pg.start_uintptr(), "pages start at a page boundary");
  V_ASSERT(pg.index() == a / kP, "page numbers are addresses divided by the page size");
  V_ASSERT(PageIdContainingTagged(p) == pg, "tagged conversion agrees");
  PageId q = any_page("page");
  V_ASSERT(PageIdContaining(q.start_addr()) == q, "a page contains its start");
  HugePage h = HugePageContaining(p);
  uint64_t ha = reinterpret_cast<uint64_t>(h.start_addr());
  V_ASSERT(ha <= a && a - ha < kH && ha % kH == 0, "the hugepage containing an address contains it");
  V_ASSERT(HugePageContaining(pg) == h && h.index() == a / kH, "page and address agree on the hugepage");
  V_ASSERT(h.first_page() <= pg && pg < h.first_page() + kPagesPerHugePage, "a hugepage holds its pages");
  V_ASSERT(h.first_page().start_addr() == h.start_addr(), "the first page starts with the hugepage");
  V_ASSERT(kPagesPerHugePage.raw_num() == kPer, "pages per hugepage");
}
V_HARNESS(page_arithmetic) {
  PageId p = any_page("p"), q = any_page("q");
  V_ASSERT((p < q) == (p.start_uintptr() < q.start_uintptr()), "pages order as their addresses");
  V_ASSERT((p > q) == (q < p) && (p <= q) == !(q < p) && (p >= q) == !(p < q) && (p == q) == (!(p < q) && !(q < p)) && (p != q) == !(p == q), "comparisons are consistent");
  if (p <= q) {
    Length d = q - p;
    V_ASSERT(d.in_bytes() == q.start_uintptr() - p.start_uintptr(), "a difference is the distance in bytes");
    V_ASSERT(p + d == q && d + p == q && q - d == p, "adding a difference back");
    PageId t = p;
    t += d;
    V_ASSERT(t == q, "in-place addition");
    t -= d;
    V_ASSERT(t == p, "in-place subtraction");
  }
  if (p.index() < kMaxPn) {
    PageId t = p;
    V_ASSERT(++t == p + Length(1) && t.start_uintptr() - p.start_uintptr() == kP, "the next page");
  }
  Range r(p, Length(v::range("n", 0, 1ull << 32)));
  V_ASSERT(r.start_addr() == p.start_addr() && r.in_bytes() == r.n.in_bytes(), "a range starts at its first page");
}
V_HARNESS(length_arithmetic) {
  uint64_t a = v::any<uint64_t>("a"), b = v::any<uint64_t>("b");
  Length x(a), y(b);
  V_ASSERT((x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b), "lengths order as numbers");
  V_ASSERT((x + y).raw_num() == a + b, "sum");
  if (a >= b) V_ASSERT((x - y).raw_num() == a - b, "difference");
  Length t = x;
  V_ASSERT((++t).raw_num() == a + 1, "increment");
  if (a != ~0ull) V_ASSERT((--t).raw_num() == a, "decrement");
}
V_HARNESS(length_products) {
  uint64_t a = v::range("a", 0, 0xfffff), b = v::range("b", 1, 0xfff);
  Length x(a);
  V_ASSERT((x * b).raw_num() == a * b && (b * x).raw_num() == a * b, "product");
  uint64_t q = (x / b).raw_num(), r = (x % Length(b)).raw_num();
  V_ASSERT(x / Length(b) == q && q * b + r == a && r < b, "quotient and remainder");
}
V_HARNESS(huge_lengths) {
  uint64_t n = v::range("pages", 0, ~0ull);
  HugeLength h = HLFromPages(Length(n));
  V_ASSERT(u128(h.raw_num()) * kPer >= n && (h.raw_num() == 0 || u128(h.raw_num() - 1) * kPer < n), "HLFromPages is the ceiling");
  uint64_t b = v::any<uint64_t>("bytes");
  HugeLength f = HLFromBytes(b);
  V_ASSERT(u128(f.raw_num()) * kH <= b && u128(f.raw_num() + 1) * kH > b, "HLFromBytes is the floor");
  uint64_t k = v::range("k", 0, kMaxHp);
  HugeLength l = NHugePages(k);
  V_ASSERT(l.raw_num() == k && l.in_bytes() == k * kH && l.in_pages() == Length(k * kPer) && l.in_mib() == k * (kH >> 20), "hugepage lengths in other units");
  V_ASSERT(HLFromPages(l.in_pages()) == l && HLFromBytes(l.in_bytes()) == l, "whole hugepages convert back");
  uint64_t w = v::any<uint64_t>("w");
  V_ASSERT(NHugePages(w).overflows() == (u128(w) * kH > ~0ull), "overflow is detected");
  V_ASSERT(HugeLength::max().raw_num() == kMaxHp && HugeLength::min().raw_num() == 0, "limits");
}
V_HARNESS(huge_arithmetic) {
  uint64_t a = v::any<uint64_t>("a"), b = v::any<uint64_t>("b");
  HugeLength x = NHugePages(a), y = NHugePages(b);
  V_ASSERT((x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b), "lengths order as numbers");
  V_ASSERT((x + y).raw_num() == a + b, "sum");
  HugeLength s = x;
  s += y;
  V_ASSERT(s == x + y, "in-place sum");
  if (a >= b) {
    V_ASSERT((x - y).raw_num() == a - b, "difference");
    s = x;
    s -= y;
    V_ASSERT(s == x - y, "in-place difference");
  }
  s = x;
  V_ASSERT((++s).raw_num() == a + 1, "increment");
  s = y;
  if (b > 0) V_ASSERT((--s).raw_num() == b - 1, "decrement");
  HugePage p = any_hp("p"), q = any_hp("q");
  uint64_t i = p.index(), j = q.index();
  V_ASSERT((p < q) == (i < j) && (p > q) == (i > j) && (p <= q) == (i <= j) && (p >= q) == (i >= j) && (p == q) == (i == j) && (p != q) == (i != j), "hugepages order as numbers");
  if (i <= j) {
    HugeLength d = q - p;
    V_ASSERT(d.raw_num() == j - i && p + d == q && d + p == q && q - d == p, "distances between hugepages");
    HugePage t = p;
    t += d;
    V_ASSERT(t == q, "in-place addition");
  }
  if (i < kMaxHp) {
    HugePage t = p;
    V_ASSERT((++t).index() == i + 1, "next hugepage");
  }
}
V_HARNESS(huge_products) {
  uint64_t a = v::range("a", 0, 0xfffff), b = v::range("b", 1, 0xfff);
  HugeLength x = NHugePages(a);
  V_ASSERT((x * b).raw_num() == a * b, "product");
  uint64_t q = (x / b).raw_num(), r = (x % NHugePages(b)).raw_num();
  V_ASSERT(x / NHugePages(b) == q && q * b + r == a && r < b, "quotient and remainder");
  HugeLength t = x;
  t *= b;
  V_ASSERT(t.raw_num() == a * b, "in-place product");
}
// A range [first, first + n), n > 0, whose end address is representable.
static HugeRange any_range(const char* nm) {
  uint64_t f = v::range(nm, 0, kMaxHp - 1), n = v::range("len", 1, kMaxHp);
  V_ASSUME(f + n <= kMaxHp);
  return HugeRange::Make(HugePage{f}, NHugePages(n));
}
static bool in(HugeRange r, uint64_t hp) { return hp >= r.start().index() && hp - r.start().index() < r.len().raw_num(); }
V_HARNESS(range_members) {
  HugeRange r = any_range("r");
  uint64_t h = v::range("hp", 0, kMaxHp);
  V_ASSERT(r.contains(HugePage{h}) == in(r, h), "contains its hugepages and no other");
  uint64_t p = v::range("page", 0, kMaxPn);
  V_ASSERT(r.contains(PageId(p)) == in(r, p / kPer), "contains the pages of its hugepages and no other");
  uint64_t s = reinterpret_cast<uint64_t>(r.start_addr()), e = reinterpret_cast<uint64_t>(r.end_addr());
  V_ASSERT(s == r.start().index() * kH && e == s + r.len().raw_num() * kH && e > s, "addresses delimit the range");
  V_ASSERT(r.byte_len() == e - s && r.byte_len() == r.len().in_bytes(), "byte length");
  V_ASSERT(r.valid() == (r.start().index() != 0) && !HugeRange::Nil().valid() && HugeRange::Nil().len() == NHugePages(0), "only a range at 0 is not valid");
  uint64_t i = v::range("i", 0, kMaxHp);
  if (i < r.len().raw_num()) V_ASSERT(in(r, r[NHugePages(i)].index()) && r[NHugePages(i)].index() - r.start().index() == i, "indexing");
  Range pr(r);
  V_ASSERT(pr.start_addr() == r.start_addr() && pr.in_bytes() == r.byte_len(), "the same range in pages");
}
#if V_PAIRS || V_THOROUGH
struct Pair {
  HugeRange a = any_range("a"), b = any_range("b");
  uint64_t as = a.start().index(), ae = as + a.len().raw_num(), bs = b.start().index(), be = bs + b.len().raw_num();
};
V_HARNESS(range_contains) {
  Pair p;
  V_ASSERT(p.a.contains(p.b) == (p.as <= p.bs && p.be <= p.ae), "containment of ranges is containment of their hugepages");
  V_ASSERT((p.a == p.b) == (p.as == p.bs && p.ae == p.be), "equality");
}
V_HARNESS(range_intersects) {
  Pair p;
  V_ASSERT(p.a.intersects(p.b) == (p.as < p.be && p.bs < p.ae), "ranges intersect iff they share a hugepage");
}
V_HARNESS(range_join) {
  Pair p;
  V_ASSERT(p.a.precedes(p.b) == (p.ae == p.bs), "precedes means immediately before");
  if (p.a.precedes(p.b)) {
    HugeRange j = Join(p.a, p.b);
    V_ASSERT(j.start().index() == p.as && j.len().raw_num() == p.be - p.as, "joining gives the union");
    V_COVER(true, "joined");
  }
}
#endif
V_HARNESS(range_split) {
  HugeRange r = any_range("r");
  uint64_t n = v::range("n", 1, kMaxHp);
  V_ASSUME(n <= r.len().raw_num());
  auto s = Split(r, NHugePages(n));
  V_ASSERT(s.first.len() == NHugePages(n) && s.first.start() == r.start(), "the first part has the length asked");
  bool two = n < r.len().raw_num();
  V_ASSERT(s.second.len().raw_num() == r.len().raw_num() - n, "the second part has the rest");
  V_ASSERT(!two || s.second.start().index() == r.start().index() + n, "the second part starts where the first ends");
  V_ASSERT(two || s.second == HugeRange::Nil(), "nothing left is Nil");
}
