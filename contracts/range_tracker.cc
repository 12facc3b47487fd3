//@ property: C04
//@ variant: default:
//@ variant: inv:-DV_INV
//@ opt: inv_.* inv=1 weight=3
//@ opt: .*_12 weight=4
//@ opt: history_.* native=3000
//@ assume: RangeTracker<64> and RangeTracker<256> for every contents and argument through loop invariants (hooks in range_tracker.h; thorough tier; at quick tier unmarking, and a bounded randomised history for finding and marking); RangeTracker<12> by complete unrolling
// C04: RangeTracker<N> against a set of positions.
#include "v.h"
#include "tcmalloc_invariants.h"
#include "tcmalloc/internal/range_tracker.h"
using namespace tcmalloc::tcmalloc_internal;

#ifndef V_INV
// ---- complete unrolling for a small tracker
template <size_t N>
static inline size_t spec_longest(const Bitmap<N>& b) {
  size_t run = 0, best = 0;
  for (size_t i = 0; i < N; i++) {
    run = b.GetBit(i) ? 0 : run + 1;
    if (run > best) best = run;
  }
  return best;
}
// Arbitrary consistent tracker: any contents, counters equal to what the
// contents say.
template <size_t N>
struct Any {
  VObj<RangeTracker<N>> o;
  Bitmap<N> before;
  explicit Any(const char* name) {
    o.havoc(name);
    for (size_t i = 0; i < N; i++)
      if (v::any_bool("bit")) before.SetBit(i);
    V_ASSUME((o->bits() ^ before).IsZero());
    V_ASSUME(o->used() == before.CountBits());
    V_ASSUME(o->longest_free() == spec_longest(before));
    V_ASSUME(o->allocs() <= o->used());
    V_ASSUME((o->allocs() == 0) == (o->used() == 0));
  }
  RangeTracker<N>& operator*() { return *o; }
};
template <size_t N> static size_t pos(const char* n) { return v::range(n, 0, N - 1); }

template <size_t N> static inline void find_and_mark() {
  Any<N> a("t");
  RangeTracker<N>& t = *a;
  size_t n = v::range("n", 1, N), p = pos<N>("p");
  V_ASSUME(n <= t.longest_free());
  size_t used = t.used(), allocs = t.allocs();
  size_t r = t.FindAndMark(n);
  Bitmap<N> b = t.bits();
  V_ASSERT(r < N && r + n <= N, "in range");
  bool in = p >= r && p < r + n;
  V_ASSERT(!in || !a.before.GetBit(p), "only free positions are handed out");
  V_ASSERT(b.GetBit(p) == (a.before.GetBit(p) || in), "marks exactly the returned range");
  V_ASSERT(t.used() == used + n, "used count");
  V_ASSERT(t.allocs() == allocs + 1, "allocation count");
  V_ASSERT(t.longest_free() == spec_longest(b), "longest free run");
}
template <size_t N> static inline void best_fit() {
  Any<N> a("t");
  RangeTracker<N>& t = *a;
  size_t n = v::range("n", 1, N), q = pos<N>("q"), len = v::range("len", 1, N);
  V_ASSUME(n <= t.longest_free());
  // [q, q+len) is any maximal free run.
  V_ASSUME(vinv::is_run(a.before, q, len));
  size_t r = t.FindAndMark(n);
  size_t e = a.before.FindSet(r);  // end of the run it was taken from
  V_ASSERT(r == 0 || a.before.GetBit(r - 1), "taken from the start of a free run");
  V_ASSERT(e - r >= n, "the run is long enough");
  V_ASSERT(len < n || len > e - r || (len == e - r && q >= r), "no adequate run is shorter, nor as short and earlier");
}
template <size_t N> static inline void mark() {
  Any<N> a("t");
  RangeTracker<N>& t = *a;
  size_t i = pos<N>("i"), n = v::range("n", 1, N), p = pos<N>("p");
  V_ASSUME(i + n <= N);
  V_ASSUME(a.before.FindSet(i) >= i + n);
  size_t used = t.used(), allocs = t.allocs();
  t.Mark(i, n);
  Bitmap<N> b = t.bits();
  V_ASSERT(b.GetBit(p) == (a.before.GetBit(p) || (p >= i && p < i + n)), "marks exactly the range");
  V_ASSERT(t.used() == used + n && t.allocs() == allocs + 1, "counts");
  V_ASSERT(t.longest_free() == spec_longest(b), "longest free run");
}
template <size_t N> static inline void unmark() {
  Any<N> a("t");
  RangeTracker<N>& t = *a;
  size_t i = pos<N>("i"), n = v::range("n", 1, N), p = pos<N>("p");
  V_ASSUME(i + n <= N);
  V_ASSUME(a.before.FindClear(i) >= i + n);
  size_t used = t.used(), allocs = t.allocs();
  V_ASSUME(allocs >= 1);
  t.Unmark(i, n);
  Bitmap<N> b = t.bits();
  V_ASSERT(b.GetBit(p) == (a.before.GetBit(p) && !(p >= i && p < i + n)), "frees exactly the range");
  V_ASSERT(t.used() == used - n && t.allocs() == allocs - 1, "counts");
  V_ASSERT(t.longest_free() == spec_longest(b), "longest free run");
}
template <size_t N> static inline void misc() {
  Any<N> a("t");
  RangeTracker<N>& t = *a;
  size_t p = pos<N>("p"), s = v::range("s", 0, N);
  V_ASSERT(t.size() == N, "size");
  size_t i1 = 0, l1 = 0, i2 = 0, l2 = 0;
  bool r1 = t.NextFreeRange(s, &i1, &l1), r2 = a.before.NextFreeRange(s, &i2, &l2);
  V_ASSERT(r1 == r2 && (!r1 || (i1 == i2 && l1 == l2)), "free ranges are those of the contents");
  V_ASSERT(t.bits().GetBit(p) == a.before.GetBit(p), "queries change nothing");
  t.Clear();
  V_ASSERT(!t.bits().GetBit(p) && t.used() == 0 && t.allocs() == 0 && t.longest_free() == N, "Clear");
}
#define EACH(f) V_HARNESS(f##_12) { f<12>(); }
EACH(find_and_mark)
EACH(best_fit)
EACH(mark)
EACH(unmark)
EACH(misc)
#if V_THOROUGH
V_HARNESS(find_and_mark_16) { find_and_mark<16>(); }
V_HARNESS(best_fit_16) { best_fit<16>(); }
V_HARNESS(mark_16) { mark<16>(); }
V_HARNESS(unmark_16) { unmark<16>(); }
#endif

template <size_t N> static inline void fresh() {
  RangeTracker<N> f;
  size_t p = pos<N>("p");
  V_ASSERT(!f.bits().GetBit(p) && f.used() == 0 && f.allocs() == 0 && f.longest_free() == N, "a new tracker is free");
  f.Mark(0, N);
  V_ASSERT(f.bits().GetBit(p) && f.used() == N && f.allocs() == 1 && f.longest_free() == 0, "all of it can be in use");
  f.Unmark(0, N);
  V_ASSERT(!f.bits().GetBit(p) && f.used() == 0 && f.allocs() == 0 && f.longest_free() == N, "and free again");
}
// Bounded stand-in at quick tier for the multi-word sizes (thorough: proved by
// invariants): random histories against a reference.
template <size_t N> static inline void history() {
  RangeTracker<N> t;
  bool used[N];
  size_t start[N], len[N], live = 0;
  for (auto& u : used) u = false;
  auto longest = [&] {
    size_t run = 0, best = 0;
    for (size_t i = 0; i < N; i++) { run = used[i] ? 0 : run + 1; best = run > best ? run : best; }
    return best;
  };
  size_t big = v::range("max_len", 1, N / 2);
  for (int step = 0; step < 60; step++) {
    size_t op = v::range("op", 0, 4);
    if (op <= 2) {
      size_t n = v::range("n", 1, big);
      if (n > t.longest_free()) continue;
      size_t r = 0, want = N, wl = N + 1;
      for (size_t i = 0; i < N;) {
        size_t j = i;
        while (j < N && !used[j]) j++;
        if (j - i >= n && j - i < wl) want = i, wl = j - i;
        i = j + 1;
      }
      if (op == 2) {
        r = v::range("at", 0, N - n);
        bool ok = true;
        for (size_t i = r; i < r + n; i++) ok = ok && !used[i];
        if (!ok) continue;
        t.Mark(r, n);
      } else {
        r = t.FindAndMark(n);
        V_ASSERT(r == want, "the first of the shortest adequate runs");
      }
      for (size_t i = r; i < r + n; i++) used[i] = true;
      start[live] = r, len[live] = n, live++;
    } else if (live > 0) {
      size_t k = v::range("which", 0, live - 1);
      t.Unmark(start[k], len[k]);
      for (size_t i = start[k]; i < start[k] + len[k]; i++) used[i] = false;
      live--;
      start[k] = start[live], len[k] = len[live];
    }
    size_t count = 0;
    bool same = true;
    Bitmap<N> b = t.bits();
    for (size_t i = 0; i < N; i++) count += used[i], same = same && b.GetBit(i) == used[i];
    V_ASSERT(same, "exactly the live ranges are marked");
    V_ASSERT(t.used() == count && t.allocs() == live, "counts");
    V_ASSERT(t.longest_free() == longest(), "longest free run");
  }
}
V_HARNESS(history_64) { history<64>(); }
V_HARNESS(history_256) { history<256>(); }
V_HARNESS(fresh_64) { fresh<64>(); }
V_HARNESS(fresh_256) { fresh<256>(); }
V_HARNESS(fresh_512) { fresh<512>(); }
#else
// ---- every contents of the trackers in use, by invariants
template <size_t N> static size_t pos(const char* n) { return v::range(n, 0, N - 1); }
static void any_run(size_t k, size_t N) {
  vinv::rt_q[k] = v::range("run", 0, N - 1);
  vinv::rt_l[k] = v::range("run_len", 1, N);
}
// The maximal run of b around position p.
template <typename B> static size_t run_start(const B& b, size_t p) { return b.FindSetBackwards(p) + 1; }
template <typename B> static size_t run_end(const B& b, size_t p) { return b.FindSet(p); }

template <size_t N> static inline void inv_find() {
  VObj<RangeTracker<N>> o;
  o.havoc("t");
  Bitmap<N> before = o->bits();
  size_t n = v::range("n", 1, N), p = pos<N>("p");
  size_t used = o->used(), allocs = o->allocs();
  V_ASSUME(used + n <= N && allocs < N);
  // an adequate run exists (n <= longest_free()), and any other run
  any_run(0, N);
  any_run(1, N);
  V_ASSUME(vinv::is_run(before, vinv::rt_q[0], vinv::rt_l[0]) && vinv::rt_l[0] >= n);
  V_ASSUME(vinv::is_run(before, vinv::rt_q[1], vinv::rt_l[1]));
  size_t r = o->FindAndMark(n);
  Bitmap<N> b = o->bits();
  V_ASSERT(r < N && r + n <= N, "in range");
  bool in = p >= r && p < r + n;
  V_ASSERT(!in || !before.GetBit(p), "only free positions are handed out");
  V_ASSERT(b.GetBit(p) == (before.GetBit(p) || in), "marks exactly the returned range");
  V_ASSERT(o->used() == used + n && o->allocs() == allocs + 1, "counts");
  size_t e = run_end(before, r), len = vinv::rt_l[1], q = vinv::rt_q[1];
  V_ASSERT(r == 0 || before.GetBit(r - 1), "taken from the start of a free run");
  V_ASSERT(e - r >= n, "the run is long enough");
  V_ASSERT(len < n || len > e - r || (len == e - r && q >= r), "no adequate run is shorter, nor as short and earlier");
  // longest_free: no free run is longer ...
  size_t a = q == r ? r + n : q;          // what is left of run q
  size_t left = q == r ? len - n : len;
  V_ASSERT(left <= o->longest_free(), "no free run is longer than longest_free");
  // ... and one is as long
  size_t L = o->longest_free();
  auto is = [&](size_t s) { return s < N && L <= N - s && b.FindSet(s) >= s + L; };
  V_ASSERT(L == 0 || is(vinv::rt_w) || is(vinv::rt_w2) || is(r + n), "longest_free is the length of a free run");
  V_COVER(q == r, "the probed run is used");
  V_COVER(L == 0, "nothing left");
}
#if V_THOROUGH
V_HARNESS(inv_find_64) { inv_find<64>(); }
#endif
#if V_THOROUGH
V_HARNESS(inv_find_256) { inv_find<256>(); }
#endif

template <size_t N> static inline void inv_mark() {
  VObj<RangeTracker<N>> o;
  o.havoc("t");
  Bitmap<N> before = o->bits();
  size_t i = pos<N>("i"), n = v::range("n", 1, N), p = pos<N>("p");
  V_ASSUME(i + n <= N && before.FindSet(i) >= i + n);
  size_t used = o->used(), allocs = o->allocs();
  V_ASSUME(used + n <= N && allocs < N);
  Bitmap<N> after = before;
  after.SetRange(i, n);
  any_run(0, N);
  bool some = v::any_bool("some_run");
  if (some) V_ASSUME(vinv::is_run(after, vinv::rt_q[0], vinv::rt_l[0]));
  else V_ASSUME(after.FindClear(0) == N && vinv::rt_l[0] == 0);
  o->Mark(i, n);
  Bitmap<N> b = o->bits();
  V_ASSERT(b.GetBit(p) == (before.GetBit(p) || (p >= i && p < i + n)), "marks exactly the range");
  V_ASSERT(o->used() == used + n && o->allocs() == allocs + 1, "counts");
  size_t L = o->longest_free();
  V_ASSERT(vinv::rt_l[0] <= L, "no free run is longer than longest_free");
  V_ASSERT(L == 0 || vinv::is_run(b, vinv::rt_w, L), "longest_free is the length of a free run");
}
#if V_THOROUGH
V_HARNESS(inv_mark_64) { inv_mark<64>(); }
#endif
#if V_THOROUGH
V_HARNESS(inv_mark_256) { inv_mark<256>(); }
#endif

template <size_t N> static inline void unmark_all() {
  VObj<RangeTracker<N>> o;
  o.havoc("t");
  Bitmap<N> before = o->bits();
  size_t i = pos<N>("i"), n = v::range("n", 1, N), p = pos<N>("p");
  V_ASSUME(i + n <= N && before.FindClear(i) >= i + n);
  size_t used = o->used(), allocs = o->allocs(), longest = o->longest_free();
  V_ASSUME(used >= n && used <= N && allocs >= 1);
  // longest_free is the length of run w0, and run q (any) is no longer.
  size_t w0 = pos<N>("longest_run"), q = pos<N>("q");
  V_ASSUME(longest == 0 || vinv::is_run(before, w0, longest));
  V_ASSUME(before.GetBit(q) || run_end(before, q) - run_start(before, q) <= longest);
  o->Unmark(i, n);
  Bitmap<N> b = o->bits();
  V_ASSERT(b.GetBit(p) == (before.GetBit(p) && !(p >= i && p < i + n)), "frees exactly the range");
  V_ASSERT(o->used() == used - n && o->allocs() == allocs - 1, "counts");
  size_t L = o->longest_free();
  V_ASSERT(b.GetBit(q) || run_end(b, q) - run_start(b, q) <= L, "no free run is longer than longest_free");
  V_ASSERT((longest == L && L != 0 && b.FindSet(w0) >= w0 + L) || run_end(b, i) - run_start(b, i) == L, "longest_free is the length of a free run");
}
V_HARNESS(unmark_64) { unmark_all<64>(); }
V_HARNESS(unmark_128) { unmark_all<128>(); }
#if V_THOROUGH
V_HARNESS(unmark_256) { unmark_all<256>(); }
#endif
#endif
