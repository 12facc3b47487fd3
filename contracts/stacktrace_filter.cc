//@ property: C18
//@ assume: absl::HashOf is an arbitrary deterministic function into [0, 256) (every combination of slots and a zero hash are reached)
//@ assume: filter sizes 1, 3, 4 with 1-3 hashes, decay depths 1-3; additions from every state, amounts in [-131072, 131072]; decay over histories of at most 5 operations
// C18: StackTraceFilter, DecayingStackTraceFilter.
#include "v.h"
#include <string.h>
#include "tcmalloc/internal/stacktrace_filter.h"
using namespace tcmalloc::tcmalloc_internal;
using Trace = absl::Span<void* const>;

size_t __v_hash(const uint64_t* w, size_t n) { return __v_uf("hash", w[0], w[1], w[2], w[3]) & 0xff; }
// A trace of one or two arbitrary frames.
struct Tr {
  void* w[2];
  size_t n;
  static Tr any() {
    Tr t;
    t.w[0] = reinterpret_cast<void*>(v::any<uint64_t>("frame0"));
    t.w[1] = reinterpret_cast<void*>(v::any<uint64_t>("frame1"));
    t.n = 2;
    return t;
  }
  Trace get() const { return Trace(w, 2); }
  size_t hash() const { return absl::HashOf(get()); }
  bool same(const Tr& o) const { return w[0] == o.w[0] && w[1] == o.w[1]; }
};
static Tr pick(bool b, const Tr& x, const Tr& y) {
  Tr t;
  t.w[0] = b ? x.w[0] : y.w[0];
  t.w[1] = b ? x.w[1] : y.w[1];
  t.n = 2;
  return t;
}
// Specification: the slots of a trace are its hash and the iterated hashes.
template <size_t S, size_t H> struct Spec {
  uint16_t count[S] = {};
  void add_hash(size_t h, int v) {
    for (size_t k = 0; k < H; k++) {
      for (size_t s = 0; s < S; s++) count[s] = static_cast<uint16_t>(count[s] + (h % S == s ? v : 0));
      h = absl::HashOf(h);
    }
  }
  bool has(const Tr& t) const {
    bool r = true;
    size_t h = t.hash();
    for (size_t k = 0; k < H; k++) {
      uint16_t c = 0;
      for (size_t s = 0; s < S; s++) c = h % S == s ? count[s] : c;
      r = r & (c != 0);
      h = absl::HashOf(h);
    }
    return r;
  }
};
static int any_val() { return static_cast<int>(v::range("val", 0, 262144)) - 131072; }

// From every state (the counters are the filter's only contents).
template <size_t S, size_t H> static inline void step() {
  using F = StackTraceFilter<S, H>;
  if (sizeof(F) != 2 * S) return;  // another representation: covered by history<> only
  VObj<F> f;
  f.havoc("filter");
  Spec<S, H> sp;
  memcpy(static_cast<void*>(sp.count), &*f, 2 * S);
  Tr a = Tr::any(), q = Tr::any();
  V_ASSERT(f->Contains(q.get()) == sp.has(q), "a query answers with the counts of the trace's slots");
  int val = any_val();
  f->Add(a.get(), val);
  sp.add_hash(a.hash(), val);
  Spec<S, H> now;
  memcpy(static_cast<void*>(now.count), &*f, 2 * S);
  for (size_t s = 0; s < S; s++) V_ASSERT(now.count[s] == sp.count[s], "an addition changes each slot by the amount");
  V_ASSERT(f->Contains(q.get()) == sp.has(q), "a query answers with the counts after the addition");
}
V_HARNESS(step_4_2) { step<4, 2>(); }
V_HARNESS(step_1_2) { step<1, 2>(); }
V_HARNESS(step_3_3) { step<3, 3>(); }
// From any state: adding and removing the same amount restores every answer.
V_HARNESS(inverse) {
  VObj<StackTraceFilter<6, 2>> f;
  f.havoc("filter");
  Tr t = Tr::any(), q = Tr::any();
  int val = static_cast<int>(v::range("val", 0, 2000)) - 1000;
  bool before = f->Contains(q.get());
  f->Add(t.get(), val);
  f->Add(t.get(), -val);
  V_ASSERT(before == f->Contains(q.get()), "addition and removal cancel from any state");
  V_COVER(before, "contained");
  V_COVER(!before, "not contained");
}
template <size_t S, size_t H, int OPS> static inline void history() {
  Spec<S, H> sp;
  StackTraceFilter<S, H> f;
  Tr a = Tr::any(), b = Tr::any();
  V_ASSERT(!f.Contains(a.get()), "a new filter holds nothing");
  int64_t na = 0, nb = 0;
  bool never_negative = true;
  for (int i = 0; i < OPS; i++) {
    bool isa = v::any_bool("which");
    int val = static_cast<int>(v::range("val", 0, 600)) - 300;
    Tr t = pick(isa, a, b);
    f.Add(t.get(), val);
    sp.add_hash(t.hash(), val);
    na += isa ? val : 0;
    nb += isa ? 0 : val;
  }
  V_ASSERT(f.Contains(a.get()) == sp.has(a), "a query answers with the net count of the slots");
  V_ASSERT(!(na > 0 && nb >= 0) || f.Contains(a.get()), "a trace added and not removed is found");
  V_ASSERT(!(na == 0 && nb == 0) || !f.Contains(a.get()), "balanced additions and removals leave nothing");
}
V_HARNESS(history_4_1) { history<4, 1, 2>(); }
V_HARNESS(history_2_2) { history<2, 2, 2>(); }
// ---- decaying filter: each addition or Decay() takes one count back from the
// trace added D such operations ago.
template <size_t S, size_t H, size_t D, int OPS, bool ADDS_ONLY> static inline void decaying() {
  Spec<S, H> sp;
  DecayingStackTraceFilter<S, H, D> f;
  size_t q[D];  // hashes, oldest first; 0: nothing to decay
  for (size_t i = 0; i < D; i++) q[i] = 0;
  Tr a = Tr::any(), b = Tr::any();
  for (int i = 0; i < OPS; i++) {
    Tr t = pick(v::any_bool("which"), a, b);
    size_t h = t.hash();
    bool add = ADDS_ONLY || v::any_bool("add");
    int val = 0;
    if (add) {
      val = ADDS_ONLY ? static_cast<int>(v::range("val", 0, 2)) : static_cast<int>(v::range("val", 0, 3)) - 1;
      f.Add(t.get(), val);
    } else {
      f.Decay();
    }
    bool decays = !add || val >= 0;
    bool counted = add && val >= 0 && h != 0;
    sp.add_hash(q[0], decays && q[0] != 0 ? -1 : 0);
    sp.add_hash(h, add ? val + (counted ? 1 : 0) : 0);
    size_t in = counted ? h : 0;
    for (size_t j = 0; j < D; j++) q[j] = !decays ? q[j] : j + 1 < D ? q[j + 1] : in;
    V_ASSERT(f.Contains(a.get()) == sp.has(a), "answers match additions less the oldest, decayed ones");
  }
}
V_HARNESS(decaying_adds_2) { decaying<4, 1, 2, 4, true>(); }
V_HARNESS(decaying_adds_3) { decaying<2, 2, 3, 4, true>(); }
V_HARNESS(decaying_mixed_1) { decaying<4, 1, 1, 3, false>(); }
V_HARNESS(decaying_mixed_2) { decaying<2, 1, 2, 4, false>(); }
#if V_THOROUGH
V_HARNESS(step_8_2) { step<8, 2>(); }
V_HARNESS(decaying_mixed_2b) { decaying<4, 2, 2, 5, false>(); }
V_HARNESS(decaying_mixed_3) { decaying<2, 1, 3, 5, false>(); }
V_HARNESS(history_4_2) { history<4, 2, 3>(); }
#endif
// DecayAll leaves only what was added explicitly.
template <size_t D, unsigned N> static inline void decay_all() {
  DecayingStackTraceFilter<4, 2, D> f;
  Tr a = Tr::any(), b = Tr::any(), c = Tr::any();
  bool keep = v::any_bool("keep");
  for (unsigned i = 0; i < N; i++) f.Add(pick(v::any_bool("which"), a, b).get(), 0);
  if (keep) f.Add(c.get(), 1);
  f.DecayAll();
  if (keep) {
    V_ASSERT(f.Contains(c.get()), "what was added explicitly stays");
  } else {
    V_ASSERT(!f.Contains(a.get()) && !f.Contains(b.get()), "fully decayed");
  }
}
V_HARNESS(decay_all_2_1) { decay_all<2, 1>(); }
V_HARNESS(decay_all_2_3) { decay_all<2, 3>(); }
V_HARNESS(decay_all_3_2) { decay_all<3, 2>(); }
V_HARNESS(decay_all_3_4) { decay_all<3, 4>(); }
