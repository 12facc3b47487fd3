//@ property: C10
//@ level: other
//@ assume: TList operations are exercised on every list of up to 5 elements (every choice of position); they contain no loop and touch only an element and its two neighbours, all aliasing cases of which occur in those lists
//@ assume: LinkedList: a list is its first elements followed by an arbitrary tail (any length); batches of up to 6 elements with arbitrary contents, and of the largest batch size (128)
// C10: the intrusive lists as sequences.
#include "v.h"
#include "tcmalloc/internal/linked_list.h"
using namespace tcmalloc::tcmalloc_internal;

// ---- LinkedList: elements are linked through their first word, so an
// arbitrary tail is an arbitrary first word of the last element pushed.
struct Obj {
  void* word;
  uint64_t data;
};
static constexpr int kObj = 8;
struct S {
  Obj o[kObj];
  LinkedList l;
  size_t len0 = 0;
  void* tail;  // first element of the rest of the list, or null
  S() {
    for (auto& x : o) x.data = v::any<uint64_t>("data");
  }
  // k known elements (k >= 1) in front of an arbitrary rest: o[0] first.
  void build(int k) {
    tail = reinterpret_cast<void*>(v::any<uint64_t>("tail"));
    for (int i = k - 1; i >= 0; i--) l.Push(&o[i]);
    o[k - 1].word = tail;
  }
  // The list is e[0..n) then the given rest.
  void expect(Obj* const* e, int n, void* rest) {
    void* p;
    for (int i = 0; i < n; i++) {
      V_ASSERT(!l.empty(), "not empty while elements are left");
      bool ok = l.TryPop(&p);
      V_ASSERT(ok && p == e[i], "elements come back last in, first out");
    }
    V_ASSERT(l.empty() == (rest == nullptr), "empty exactly when nothing is left");
  }
};
V_HARNESS(sll_empty) {
  LinkedList l;
  void* p = &l;
  V_ASSERT(l.empty() && l.length() == 0, "a new list is empty");
  V_ASSERT(!l.TryPop(&p) && p == &l && l.length() == 0, "nothing to pop from an empty list");
}
template <int K> static inline void sll_push_pop() {
  S s;
  s.build(K);
  uint64_t d[kObj];
  for (int i = 0; i < kObj; i++) d[i] = s.o[i].data;
  V_ASSERT(s.l.length() == K, "length");
  s.l.Push(&s.o[K]);
  V_ASSERT(s.l.length() == K + 1 && !s.l.empty(), "pushing adds one element");
  Obj* e[K + 1];
  e[0] = &s.o[K];
  for (int i = 0; i < K; i++) e[i + 1] = &s.o[i];
  s.expect(e, K + 1, s.tail);
  V_ASSERT(s.l.length() == 0, "length counts pops");
  for (int i = 0; i < kObj; i++) V_ASSERT(s.o[i].data == d[i], "element contents are untouched");
}
V_HARNESS(sll_push_pop_1) { sll_push_pop<1>(); }
V_HARNESS(sll_push_pop_3) { sll_push_pop<3>(); }
// A batch holds each element once; the order within a batch is unspecified.
template <int K, int N> static inline void sll_push_batch() {
  static_assert(K + N <= kObj);
  S s;
  s.build(K);
  void* batch[N];
  for (int i = 0; i < N; i++) batch[i] = &s.o[K + i];
  s.l.PushBatch(N, batch);
  V_ASSERT(s.l.length() == K + N, "a batch adds its size");
  int seen[kObj] = {};
  void* p = nullptr;
  for (int i = 0; i < N; i++) {
    V_ASSERT(s.l.TryPop(&p), "every element of the batch is there");
    for (int j = 0; j < kObj; j++) seen[j] += p == &s.o[j] ? 1 : 0;
  }
  for (int j = 0; j < kObj; j++) V_ASSERT(seen[j] == (j >= K && j < K + N ? 1 : 0), "each element of the batch once, before the others");
  Obj* e[K];
  for (int i = 0; i < K; i++) e[i] = &s.o[i];
  s.expect(e, K, s.tail);
}
V_HARNESS(sll_push_batch_1_1) { sll_push_batch<1, 1>(); }
V_HARNESS(sll_push_batch_2_2) { sll_push_batch<2, 2>(); }
V_HARNESS(sll_push_batch_2_6) { sll_push_batch<2, 6>(); }
template <int K, int N> static inline void sll_pop_batch() {
  static_assert(N <= K && K <= kObj);
  S s;
  s.build(K);
  void* batch[N + 1];
  batch[N] = &s;
  s.l.PopBatch(N, batch);
  V_ASSERT(batch[N] == &s, "nothing is written past the batch");
  V_ASSERT(s.l.length() == K - N, "a batch takes its size");
  int seen[kObj] = {};
  for (int i = 0; i < N; i++)
    for (int j = 0; j < kObj; j++) seen[j] += batch[i] == &s.o[j] ? 1 : 0;
  for (int j = 0; j < kObj; j++) V_ASSERT(seen[j] == (j < N ? 1 : 0), "the first elements, each once");
  Obj* e[K];
  for (int i = N; i < K; i++) e[i - N] = &s.o[i];
  s.expect(e, K - N, s.tail);
}
V_HARNESS(sll_pop_batch_1_1) { sll_pop_batch<1, 1>(); }
V_HARNESS(sll_pop_batch_4_2) { sll_pop_batch<4, 2>(); }
V_HARNESS(sll_pop_batch_6_6) { sll_pop_batch<6, 6>(); }
V_HARNESS(sll_batch_largest) {
  static Obj o[128];
  LinkedList l;
  Obj first;
  l.Push(&first);
  void* b[128];
  for (int i = 0; i < 128; i++) b[i] = &o[i];
  l.PushBatch(128, b);
  V_ASSERT(l.length() == 129, "largest batch");
  void* r[128];
  l.PopBatch(128, r);
  V_ASSERT(l.length() == 1 && !l.empty(), "one left");
  for (int i = 0; i < 128; i++) {
    int n = 0;
    for (int j = 0; j < 128; j++) n += r[j] == &o[i] ? 1 : 0;
    V_ASSERT(n == 1, "each element once");
  }
  void* p = nullptr;
  V_ASSERT(l.TryPop(&p) && p == &first && l.empty(), "the rest stays");
}
V_HARNESS(sll_free_functions) {
  Obj a, b;
  void* t = reinterpret_cast<void*>(v::any<uint64_t>("tail"));
  void* list = t;
  SLL_Push(&list, &a);
  SLL_Push(&list, &b);
  V_ASSERT(SLL_Next(&b) == &a && SLL_Next(&a) == t, "links");
  V_ASSERT(SLL_Pop(&list) == &b && SLL_Pop(&list) == &a && list == t, "last in, first out, the rest untouched");
}

// ---- TList
struct Item : public TList<Item>::Elem {
  uint64_t data;
};
static constexpr int kItems = 6;
struct D {
  Item it[kItems];
  TList<Item> l;
  // reference sequence of item numbers
  int seq[kItems + 1];
  int n = 0;
  D() {
    for (int i = 0; i < kItems; i++) it[i].data = v::any<uint64_t>("data");
  }
  void ref_insert(int at, int x) {
    for (int i = n; i > at; i--) seq[i] = seq[i - 1];
    seq[at] = x;
    n++;
  }
  void ref_remove(int at) {
    for (int i = at; i + 1 < n; i++) seq[i] = seq[i + 1];
    n--;
  }
  void check() {
    V_ASSERT(l.empty() == (n == 0), "empty exactly when it has no elements");
    V_ASSERT(l.length() == static_cast<size_t>(n), "length");
    int i = 0;
    for (Item* x : l) {
      V_ASSERT(i < n && x == &it[seq[i]], "exactly these elements, in order");
      i++;
    }
    V_ASSERT(i == n, "every element is reached going forward");
    for (auto r = l.rbegin(); r != l.rend(); ++r) {
      i--;
      V_ASSERT(i >= 0 && *r == &it[seq[i]], "exactly these elements, in reverse order going backward");
    }
    V_ASSERT(i == 0, "every element is reached going backward");
    if (n > 0) {
      V_ASSERT(l.first() == &it[seq[0]] && l.last() == &it[seq[n - 1]], "first and last");
      auto a = l.at(&it[seq[n / 2]]);
      V_ASSERT(*a == &it[seq[n / 2]], "at");
      ++a;
      V_ASSERT(n / 2 + 1 < n ? *a == &it[seq[n / 2 + 1]] : a == l.end(), "at, forward");
    }
  }
};
// Every list of up to 5 elements, built by any mix of prepends and appends,
// then every operation at every position, then the removal of everything in
// any order.
template <int SIZE, int MIX> static inline void dll() {
  for (int op = 0; op < 5; op++) {
    for (int at = 0; at < (op < 2 ? 1 : SIZE); at++) {
      D d;
      d.check();
      for (int i = 0; i < SIZE; i++) {
        if (MIX >> i & 1) d.l.prepend(&d.it[i]), d.ref_insert(0, i);
        else d.l.append(&d.it[i]), d.ref_insert(d.n, i);
      }
      d.check();
      Item* x = &d.it[kItems - 1];
      bool e;
      if (op == 0) d.l.prepend(x), d.ref_insert(0, kItems - 1);
      if (op == 1) d.l.append(x), d.ref_insert(d.n, kItems - 1);
      if (op == 2) d.l.prepend(&d.it[d.seq[at]], x), d.ref_insert(at, kItems - 1);
      if (op == 3) d.l.append(&d.it[d.seq[at]], x), d.ref_insert(at + 1, kItems - 1);
      if (op == 4) {
        e = d.l.remove(&d.it[d.seq[at]]);
        d.ref_remove(at);
        V_ASSERT(e == (d.n == 0), "removal says whether the list is now empty");
      }
      d.check();
      for (int k = 0; d.n > 0; k++) {
        int w = (k + at) % d.n;
        e = d.l.remove(&d.it[d.seq[w]]);
        d.ref_remove(w);
        V_ASSERT(e == (d.n == 0), "removal says whether the list is now empty");
        d.check();
      }
      // removed elements can be inserted again
      d.l.append(&d.it[0]), d.ref_insert(0, 0);
      d.check();
    }
  }
}
V_HARNESS(dll_1) { dll<0, 0>(); dll<1, 0>(); dll<1, 1>(); }
V_HARNESS(dll_2) { dll<2, 0>(); dll<2, 2>(); }
V_HARNESS(dll_3) { dll<3, 2>(); dll<3, 5>(); }
V_HARNESS(dll_4) { dll<4, 6>(); }
V_HARNESS(dll_5) { dll<5, 10>(); }
// Neither the elements' other contents nor another list change.
V_HARNESS(dll_frame) {
  D d, other;
  other.l.append(&other.it[0]), other.l.append(&other.it[1]);
  other.ref_insert(0, 0), other.ref_insert(1, 1);
  uint64_t v[3];
  for (int i = 0; i < 3; i++) v[i] = d.it[i].data;
  d.l.append(&d.it[0]);
  d.l.append(&d.it[1]);
  d.l.prepend(&d.it[1], &d.it[2]);
  d.l.remove(&d.it[0]);
  for (int i = 0; i < 3; i++) V_ASSERT(d.it[i].data == v[i], "element contents are untouched");
  other.check();
}
