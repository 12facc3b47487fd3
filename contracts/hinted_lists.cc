//@ property: C10
//@ level: other
//@ opt: history native=5000
//@ assume: HintedTrackerLists<T, N> with N = 70 lists (a full and a partial word): two elements in arbitrary lists; three elements at every combination of boundary positions; the other lists empty (the search over them is under contract in C03)
// C10: the indexed family of lists.
#include <initializer_list>
#include "v.h"
#include "tcmalloc/hinted_tracker_lists.h"
using namespace tcmalloc::tcmalloc_internal;
struct Item : public TList<Item>::Elem {
  uint64_t data;
};
static constexpr int M = 3;
template <size_t N> struct H {
  HintedTrackerLists<Item, N> h;
  Item it[M];
  size_t at[M];    // the list each element is in (N: none)
  int stamp[M];    // later additions come first within a list
  int t = 0;
  H() {
    for (int i = 0; i < M; i++) at[i] = N, stamp[i] = 0;
  }
  void add(int i, size_t l) {
    h.Add(&it[i], l);
    at[i] = l, stamp[i] = ++t;
  }
  // Reference: the element found at or above n.
  int least(size_t n) const {
    int r = -1;
    for (int i = 0; i < M; i++) {
      if (at[i] == N || at[i] < n) continue;
      if (r < 0 || at[i] < at[r] || (at[i] == at[r] && stamp[i] > stamp[r])) r = i;
    }
    return r;
  }
  size_t count() const {
    size_t c = 0;
    for (int i = 0; i < M; i++) c += at[i] != N ? 1 : 0;
    return c;
  }
  void check(size_t probe) {
    V_ASSERT(h.size() == count(), "size counts the elements");
    int want = least(probe);
    auto p = h.PeekLeast(probe);
    V_ASSERT(p.tracker == (want < 0 ? nullptr : &it[want]), "the first element of the first nonempty list at or above an index");
    V_ASSERT(p.index == (want < 0 ? N : at[want]), "and that list's index");
    size_t in = 0;
    for (int i = 0; i < M; i++) in += at[i] == probe ? 1 : 0;
    V_ASSERT(h[probe].empty() == (in == 0), "a list is empty exactly when nothing is filed there");
  }
};
template <size_t N> static inline size_t idx(const char* n) { return v::range(n, 0, N - 1); }
template <size_t N> static inline void peek() {
  H<N> x;
  x.add(0, idx<N>("l0"));
  x.add(1, idx<N>("l1"));
  x.check(idx<N>("probe"));
}
V_HARNESS(peek_70) { peek<70>(); }
template <size_t N> static inline void remove_first() {
  H<N> x;
  size_t a = idx<N>("l0"), b = idx<N>("l1");
  x.add(0, a);
  x.add(1, b);
  x.h.Remove(&x.it[1], b);
  x.at[1] = N;
  x.check(idx<N>("probe"));
}
V_HARNESS(remove_first_70) { remove_first<70>(); }
// Every operation with the elements at every combination of these positions
// (word boundaries and ends; the search itself is under contract in C03).
static constexpr size_t kP[] = {0, 1, 62, 63, 64, 69};
static constexpr int NP = 6;
static constexpr size_t kQ[] = {0, 1, 2, 63, 64, 65, 69};
enum Op { kLeast, kRemove, kMove, kIter };
template <Op op> static inline void cases(int third) {
  constexpr size_t N = 70;
  for (int i = 0; i < NP; i++) {
    for (int j = 0; j < NP; j++) {
      for (size_t q : kQ) {
        if (op != kLeast && op != kIter && q != 0 && q != 64) continue;
        H<N> x;
        x.add(0, kP[i]);
        x.add(1, kP[j]);
        if (third >= 0) x.add(2, third < NP ? kP[third] : kP[i]);
        if (op == kLeast) {
          int want = x.least(q);
          Item* r = x.h.GetLeast(q);
          V_ASSERT(r == (want < 0 ? nullptr : &x.it[want]), "takes the first element of the first nonempty list at or above an index");
          for (int k = 0; k < M; k++) x.at[k] = want == k ? N : x.at[k];
        } else if (op == kRemove) {
          int w = q == 0 ? 0 : 1;
          x.h.Remove(&x.it[w], x.at[w]);
          x.at[w] = N;
        } else if (op == kMove) {
          int w = q == 0 ? 0 : 1;
          size_t to = kP[(i + j + 1) % NP];
          if (to == x.at[w]) to = 66;
          x.h.Move(&x.it[w], x.at[w], to);
          x.at[w] = to, x.stamp[w] = ++x.t;
        } else {
          bool seen[M] = {};
          int n = 0;
          size_t last = 0;
          x.h.Iter([&](Item& e) {
            int k = static_cast<int>(&e - x.it);
            V_ASSERT(!seen[k] && x.at[k] >= q, "visits each element at or above an index once");
            V_ASSERT(x.at[k] >= last, "in order of the lists");
            last = x.at[k];
            seen[k] = true;
            n++;
          }, q);
          int want = 0;
          for (int k = 0; k < M; k++) want += x.at[k] != N && x.at[k] >= q ? 1 : 0;
          V_ASSERT(n == want, "visits every element at or above an index");
        }
        for (size_t p : {size_t(0), kP[i], kP[j], size_t(66), size_t(69)}) {
          x.check(p);
          size_t in = 0;
          for (int k = 0; k < M; k++) in += x.at[k] == p ? 1 : 0;
          V_ASSERT(x.h.SizeOfList(p) == in, "list lengths");
        }
      }
    }
  }
}
V_HARNESS(least) { cases<kLeast>(-1); }
V_HARNESS(least3) { cases<kLeast>(3); }
V_HARNESS(least_same) { cases<kLeast>(NP); }
V_HARNESS(remove_any) { cases<kRemove>(-1); cases<kRemove>(NP); }
V_HARNESS(move_any) { cases<kMove>(-1); cases<kMove>(2); }
V_HARNESS(iter) { cases<kIter>(NP); }
V_HARNESS(iter3) { cases<kIter>(2); }
V_HARNESS(fresh) {
  H<70> x;
  x.check(0);
  x.check(69);
  V_ASSERT(x.h.GetLeast(0) == nullptr, "nothing to take from empty lists");
}
// Bounded supplement: random histories over the number of lists in use.
V_HARNESS(history) {
  constexpr size_t N = 256;
  constexpr int K = 6;
  HintedTrackerLists<Item, N> h;
  Item it[K];
  size_t at[K];
  int stamp[K], t = 0;
  for (auto& a : at) a = N;
  size_t hi = v::range("hi", 0, N - 1);
  for (int s = 0; s < 40; s++) {
    int k = static_cast<int>(v::range("k", 0, K - 1));
    size_t l = v::range("l", 0, hi);
    if (at[k] == N) {
      h.Add(&it[k], l), at[k] = l, stamp[k] = ++t;
    } else if (v::any_bool("move") && l != at[k]) {
      h.Move(&it[k], at[k], l), at[k] = l, stamp[k] = ++t;
    } else {
      h.Remove(&it[k], at[k]), at[k] = N;
    }
    int want = -1;
    size_t n = 0;
    for (int i = 0; i < K; i++) {
      n += at[i] != N;
      if (at[i] == N || at[i] < l) continue;
      if (want < 0 || at[i] < at[want] || (at[i] == at[want] && stamp[i] > stamp[want])) want = i;
    }
    V_ASSERT(h.size() == n, "size counts the elements");
    V_ASSERT(h.PeekLeast(l).tracker == (want < 0 ? nullptr : &it[want]), "the first element at or above an index");
  }
}
