//@ property: C03
//@ opt: count_.* weight=5
//@ assume: Bitmap sizes covered: 64, 75 (partial last word), 192, 256 bits; contents, indices and lengths are universally quantified
// C03: Bitmap<N> against sets of positions.  A position p chosen arbitrarily
// ("probe") stands for "every position".
#include "v.h"
#include "tcmalloc/internal/range_tracker.h"
using namespace tcmalloc::tcmalloc_internal;

// Arbitrary reachable contents.  With no partial word every bit pattern is a
// set; otherwise the set is built through the public interface.
template <size_t N>
struct Any {
  VObj<Bitmap<N>> o;
  explicit Any(const char* name) {
    if constexpr (N % 64 == 0) {
      o.havoc(name);
    } else {
      new (&*o) Bitmap<N>();
      for (size_t i = 0; i < N; i++)
        if (v::any_bool(name)) o->SetBit(i);
    }
  }
  Bitmap<N>& operator*() { return *o; }
};
template <size_t N> static size_t pos(const char* n) { return v::range(n, 0, N - 1); }

template <size_t N> static inline void point_ops() {
  Any<N> a("bm");
  Bitmap<N>& b = *a;
  size_t i = pos<N>("i"), p = pos<N>("p");
  bool old = b.GetBit(p), oi = b.GetBit(i);
  if (v::any_bool("set")) {
    bool r = b.SetBit(i);
    V_ASSERT(r == oi, "SetBit returns the old bit");
    V_ASSERT(b.GetBit(p) == (old || p == i), "SetBit changes exactly bit i");
  } else {
    bool r = b.ClearBit(i);
    V_ASSERT(r == oi, "ClearBit returns the old bit");
    V_ASSERT(b.GetBit(p) == (old && p != i), "ClearBit changes exactly bit i");
  }
  V_ASSERT(b.size() == N, "size");
}
template <size_t N> static inline void range_ops() {
  Any<N> a("bm");
  Bitmap<N>& b = *a;
  size_t i = pos<N>("i"), n = v::range("n", 1, N), p = pos<N>("p");
  V_ASSUME(i + n <= N);
  bool old = b.GetBit(p);
  bool in = p >= i && p < i + n;
  if (v::any_bool("set")) {
    b.SetRange(i, n);
    V_ASSERT(b.GetBit(p) == (old || in), "SetRange sets exactly [i,i+n)");
  } else {
    b.ClearRange(i, n);
    V_ASSERT(b.GetBit(p) == (old && !in), "ClearRange clears exactly [i,i+n)");
  }
}
template <size_t N> static inline void find_fwd() {
  Any<N> a("bm");
  Bitmap<N>& b = *a;
  size_t i = pos<N>("i"), p = pos<N>("p");
  size_t s = b.FindSet(i), c = b.FindClear(i);
  V_ASSERT(s >= i && s <= N, "FindSet in range");
  V_ASSERT(s == N || b.GetBit(s), "FindSet returns a set bit");
  V_ASSERT(!(p >= i && p < s) || !b.GetBit(p), "FindSet returns the first set bit");
  V_ASSERT(c >= i && c <= N, "FindClear in range");
  V_ASSERT(c == N || !b.GetBit(c), "FindClear returns a clear bit");
  V_ASSERT(!(p >= i && p < c) || b.GetBit(p), "FindClear returns the first clear bit");
  V_COVER(s == N, "no set bit");
  V_COVER(c == N, "no clear bit");
}
template <size_t N> static inline void find_bwd() {
  Any<N> a("bm");
  Bitmap<N>& b = *a;
  size_t i = pos<N>("i");
  ssize_t p = pos<N>("p");
  ssize_t s = b.FindSetBackwards(i), c = b.FindClearBackwards(i);
  V_ASSERT(s >= -1 && s <= (ssize_t)i, "FindSetBackwards in range");
  V_ASSERT(s == -1 || b.GetBit(s), "FindSetBackwards returns a set bit");
  V_ASSERT(!(p <= (ssize_t)i && p > s) || !b.GetBit(p), "FindSetBackwards returns the last set bit");
  V_ASSERT(c >= -1 && c <= (ssize_t)i, "FindClearBackwards in range");
  V_ASSERT(c == -1 || !b.GetBit(c), "FindClearBackwards returns a clear bit");
  V_ASSERT(!(p <= (ssize_t)i && p > c) || b.GetBit(p), "FindClearBackwards returns the last clear bit");
  V_COVER(s == -1, "no set bit");
  V_COVER(c == -1, "no clear bit");
}
template <size_t N> static inline void next_free() {
  Any<N> a("bm");
  Bitmap<N>& b = *a;
  size_t start = v::range("start", 0, N), p = pos<N>("p");
  size_t index = 0, length = 0;
  bool r = b.NextFreeRange(start, &index, &length);
  if (r) {
    V_ASSERT(index >= start && length >= 1 && length <= N && index <= N - length, "free range lies in the bitmap");
    V_ASSERT(!(p >= start && p < index) || b.GetBit(p), "no free bit is skipped");
    V_ASSERT(!(p >= index && p < index + length) || !b.GetBit(p), "the range is free");
    V_ASSERT(index + length == N || b.GetBit(index + length), "the range is maximal");
  } else {
    V_ASSERT(!(p >= start) || b.GetBit(p), "false only when nothing is free");
  }
  V_COVER(r, "found");
  V_COVER(!r && start < N, "not found");
}
// CountBits is the unique function with C(i,0)=0 and C(i,n+1)=C(i,n)+[i+n].
template <size_t N> static inline void count_bits() {
  Any<N> a("bm");
  Bitmap<N>& b = *a;
  size_t i = v::range("i", 0, N), n = v::range("n", 0, N);
  V_ASSUME(i + n <= N);
  V_ASSERT(b.CountBits(i, 0) == 0, "an empty range has no bits");
  if (i + n < N)
    V_ASSERT(b.CountBits(i, n + 1) == b.CountBits(i, n) + (b.GetBit(i + n) ? 1 : 0), "one more position adds its bit");
  V_ASSERT(b.CountBits() == b.CountBits(0, N), "CountBits counts all");
}
template <size_t N> static inline void whole() {
  Any<N> a("bm");
  Bitmap<N>& b = *a;
  size_t p = pos<N>("p");
  bool old = b.GetBit(p);
  size_t first = b.FindSet(0);
  V_ASSERT(b.IsZero() == (first == N), "IsZero");
  unsigned which = v::range("which", 0, 3);
  if (which == 0) {
    b.Clear();
    V_ASSERT(!b.GetBit(p) && b.IsZero(), "Clear");
  } else if (which == 1) {
    b.ClearLowestBit();
    V_ASSERT(b.GetBit(p) == (old && p != first), "ClearLowestBit clears the first set bit only");
  } else if (which == 2) {
    Bitmap<N> c = ~b;
    V_ASSERT(c.GetBit(p) == !old && b.GetBit(p) == old, "complement");
    V_ASSERT(c.FindSet(p) == b.FindClear(p), "complement leaves no bit beyond the end");
  } else {
    Bitmap<N> e;
    V_ASSERT(!e.GetBit(p) && e.IsZero(), "a new bitmap is empty");
  }
}
template <size_t N> static inline void binary() {
  Any<N> a("bm"), a2("bm2");
  Bitmap<N>&b = *a, &c = *a2;
  size_t p = pos<N>("p");
  bool x = b.GetBit(p), y = c.GetBit(p);
  V_ASSERT((b & c).GetBit(p) == (x && y), "intersection");
  V_ASSERT((b | c).GetBit(p) == (x || y), "union");
  V_ASSERT((b ^ c).GetBit(p) == (x != y), "symmetric difference");
  V_ASSERT(b.GetBit(p) == x && c.GetBit(p) == y, "operands unchanged");
}
// PopBatch: visits the lowest `limit` set bits in ascending order, once each,
// and clears exactly these.
template <size_t N> static inline void pop_batch() {
  Any<N> a("bm");
  Bitmap<N>& b = *a;
  size_t p = pos<N>("p");
  size_t limit = v::range("limit", 0, N);
  bool old = b.GetBit(p);
  size_t seen = 0, n = 0, last = 0;
  bool asc = true, inrange = true;
  size_t r = b.PopBatch([&](size_t i) {
    if (n != 0 && i <= last) asc = false;
    if (i >= N) inrange = false;
    last = i;
    n++;
    if (i == p) seen++;
  }, limit);
  V_ASSERT(r == n && r <= limit, "PopBatch returns the number visited, at most the limit");
  V_ASSERT(asc && inrange, "visits in ascending order");
  V_ASSERT(seen <= 1 && (seen == 0 || old), "visits only set bits, once");
  V_ASSERT(b.GetBit(p) == (old && seen == 0), "clears exactly the visited bits");
  V_ASSERT(!(old && seen == 0) || (n == limit && (n == 0 || last < p)), "the lowest bits go first and nothing is left below the limit");
}
template <size_t D, size_t S> static inline void copy_bits() {
  Any<D> a("dst");
  Any<S> a2("src");
  Bitmap<D>& d = *a;
  Bitmap<S>& s = *a2;
  size_t di = v::range("di", 0, D), si = v::range("si", 0, S), len = v::range("len", 0, D);
  V_ASSUME(di + len <= D && si + len <= S);
  size_t p = pos<D>("p"), t = v::range("t", 0, D - 1);
  bool old = d.GetBit(p);
  CopyBits(d, di, s, si, len);
  V_ASSERT((p >= di && p < di + len) || d.GetBit(p) == old, "CopyBits leaves positions outside the range alone");
  V_ASSERT(!(t < len) || d.GetBit(t < len ? di + t : 0) == s.GetBit(t < len ? si + t : 0), "CopyBits copies every position of the range");
}
template <size_t M, size_t N> static inline void scale(size_t len) {
  Any<N> a("src");
  Bitmap<N>& s = *a;
  bool all = v::any_bool("all");
  size_t p = pos<M>("p");
  Bitmap<M> r = Scale<M, N>(s, len, all ? ReductionOp::kAll : ReductionOp::kAny);
  bool want;
  if (len >= M) {
    size_t k = len / M;
    bool any_ = false, all_ = true;
    for (size_t q = 0; q < k; q++) {
      bool x = s.GetBit(p * k + q);
      any_ |= x;
      all_ &= x;
    }
    want = all ? all_ : any_;
  } else {
    want = s.GetBit(p / (M / len));
  }
  V_ASSERT(r.GetBit(p) == want, "Scale");
}
#define EACH(f) V_HARNESS(f##_64) { f<64>(); } V_HARNESS(f##_75) { f<75>(); } V_HARNESS(f##_192) { f<192>(); } V_HARNESS(f##_256) { f<256>(); }
EACH(point_ops)
EACH(range_ops)
EACH(find_fwd)
EACH(find_bwd)
EACH(next_free)
EACH(whole)
EACH(binary)
EACH(count_bits)
V_HARNESS(pop_batch_20) { pop_batch<20>(); }
// Two words, at most four interesting positions in the first one.
V_HARNESS(pop_batch_70_sparse) {
  constexpr size_t N = 70;
  Bitmap<N> b;
  for (size_t i : {size_t{0}, size_t{17}, size_t{62}, size_t{63}, size_t{64}, size_t{65}, size_t{69}})
    if (v::any_bool("bit")) b.SetBit(i);
  size_t limit = v::range("limit", 0, N), total = b.CountBits(), n = 0, last = 0;
  bool ok = true;
  Bitmap<N> before = b;
  size_t p = pos<N>("p");
  bool seen = false;
  size_t r = b.PopBatch([&](size_t i) {
    if ((n != 0 && i <= last) || i >= N || !before.GetBit(i)) ok = false;
    last = i;
    n++;
    if (i == p) seen = true;
  }, limit);
  V_ASSERT(ok, "ascending set bits");
  V_ASSERT(r == n && n == (limit < total ? limit : total), "as many as asked and available");
  V_ASSERT(b.GetBit(p) == (before.GetBit(p) && !seen), "clears exactly the visited bits");
  V_ASSERT(b.CountBits() == total - n, "count after");
}
V_HARNESS(copy_bits_75_128) { copy_bits<75, 128>(); }
V_HARNESS(copy_bits_128_75) { copy_bits<128, 75>(); }
#if V_THOROUGH
V_HARNESS(pop_batch_64) { pop_batch<64>(); }
V_HARNESS(pop_batch_75) { pop_batch<75>(); }
V_HARNESS(copy_bits_256_512) { copy_bits<256, 512>(); }
V_HARNESS(copy_bits_192_75) { copy_bits<192, 75>(); }
V_HARNESS(copy_bits_256_256) { copy_bits<256, 256>(); }
#endif
V_HARNESS(scale_64_256) { scale<64, 256>(256); }
V_HARNESS(scale_256_64) { scale<256, 64>(64); }
V_HARNESS(scale_64_512) { scale<64, 512>(256); }
V_HARNESS(scale_64_64) { scale<64, 64>(64); }
