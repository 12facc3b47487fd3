//@ property: C23
//@ assume: HookList<T> is instantiated with an integer hook type and with a function-pointer type
// C23: HookList as a bag of at most kHookListMaxValues hooks.
#include "v.h"
#include "tcmalloc/internal/hook_list.h"
using namespace tcmalloc::tcmalloc_internal;
static constexpr int N = kHookListMaxValues;
namespace tcmalloc::tcmalloc_internal {
ABSL_CONST_INIT absl::base_internal::SpinLock HookListBase::hooklist_spinlock_;
}

using Hook = uint64_t;
#if V_THOROUGH
static constexpr Hook kMaxHook = 1ull << 48;
#else
static constexpr Hook kMaxHook = 63;  // hooks are only compared: enough values for 7 distinct ones and more
#endif
using List = HookList<Hook>;
// The list as seen through a full traversal.
struct Bag {
  Hook h[N];
  int n;
  explicit Bag(const List& l) {
    for (int i = 0; i < N; i++) h[i] = 0;
    n = l.Traverse(h, N);
  }
  int count(Hook x) const {
    int c = 0;
    for (int i = 0; i < N; i++) c += h[i] == x ? 1 : 0;
    return c;
  }
};
// Any reachable arrangement of slots: all slots filled with arbitrary hooks or
// markers, then the markers removed (in ascending or descending order).
static inline void build(List& l, bool up, int* expect, Hook probe) {
  bool drop[N];
  for (int i = 0; i < N; i++) {
    drop[i] = v::any_bool("drop");
    Hook h = v::range("hook", 16, kMaxHook);
    bool ok = l.Add(drop[i] ? Hook(i + 1) : h);
    V_ASSERT(ok, "adding succeeds while there is room");
    *expect += !drop[i] && h == probe ? 1 : 0;
  }
  bool full = l.Add(77);
  V_ASSERT(!full, "adding to a full list fails");
  for (int k = 0; k < N; k++) {
    int i = up ? k : N - 1 - k;
    bool ok = l.Remove(drop[i] ? Hook(i + 1) : Hook(70));
    V_ASSERT(ok == drop[i], "removing succeeds iff the hook is registered");
  }
}
enum Op { kAdd, kRemove, kRead };
template <Op op> static inline void step(bool up) {
  List l;
  V_ASSERT(l.empty() && Bag(l).n == 0, "a new list is empty");
  Hook x = v::range("x", 0, kMaxHook), q = v::range("probe", 16, kMaxHook);
  int cq = 0;
  build(l, up, &cq, q);
  Bag b(l);
  V_ASSERT(b.count(q) == cq, "each registered hook is traversed once per registration");
  V_ASSERT(l.empty() == (b.n == 0), "emptiness indication is exact");
  for (int i = 0; i < N; i++) V_ASSERT((b.h[i] != 0) == (i < b.n), "a traversal returns as many hooks as it says");
  if (op == kAdd) {
    bool ok = l.Add(x);
    V_ASSERT(ok == (x != 0 && b.n < N), "adding succeeds iff there is room");
    Bag a(l);
    V_ASSERT(a.count(q) == cq + (ok && q == x ? 1 : 0), "adding adds that hook and disturbs no other");
    V_ASSERT(a.n == b.n + (ok ? 1 : 0), "adding adds one hook");
    V_ASSERT(l.empty() == (a.n == 0), "emptiness indication is exact after adding");
    V_COVER(b.n > 0 && b.n < N && ok, "added to a partly full list");
  } else if (op == kRemove) {
    bool ok = l.Remove(x);
    V_ASSERT(ok == (x != 0 && b.count(x) > 0), "removing succeeds iff registered");
    Bag a(l);
    V_ASSERT(a.count(q) == cq - (ok && q == x ? 1 : 0), "removing removes one registration and disturbs no other");
    V_ASSERT(a.n == b.n - (ok ? 1 : 0), "removing removes one hook");
    V_ASSERT(l.empty() == (a.n == 0), "emptiness indication is exact after removing");
    V_COVER(ok && b.n > 1, "removed one of several");
  } else {
    int n = static_cast<int>(v::range("n", 0, N));
    Hook out[N + 1];
    for (int i = 0; i <= N; i++) out[i] = 7;
    int got = l.Traverse(out, n);
    V_ASSERT(got == (n < b.n ? n : b.n), "a bounded traversal returns min(n, hooks)");
    int c = 0;
    for (int i = 0; i <= N; i++) {
      V_ASSERT(i >= got || b.count(out[i]) > 0, "every hook traversed is registered");
      V_ASSERT(i < got || out[i] == 7, "nothing is written past the hooks returned");
      c += out[i] == q ? 1 : 0;
    }
    V_ASSERT(c <= cq && (n < b.n || c == cq), "each hook once");
  }
}
V_HARNESS(add_up) { step<kAdd>(true); }
V_HARNESS(remove_up) { step<kRemove>(true); }
V_HARNESS(read_up) { step<kRead>(true); }
#if V_THOROUGH
V_HARNESS(add_down) { step<kAdd>(false); }
V_HARNESS(remove_down) { step<kRemove>(false); }
#endif

// Invoke() runs each registered hook once with the given argument.
static unsigned g_calls[3];
static uint64_t g_arg[3];
static void f0(uint64_t a) { g_calls[0]++, g_arg[0] = a; }
static void f1(uint64_t a) { g_calls[1]++, g_arg[1] = a; }
static void f2(uint64_t a) { g_calls[2]++, g_arg[2] = a; }
using Fn = void (*)(uint64_t);
template <bool A, bool B, bool C, int REMOVE> static inline void invoke() {
  HookList<Fn> l;
  for (auto& c : g_calls) c = 0;
  if (A) V_ASSERT(l.Add(f0), "added");
  if (B) V_ASSERT(l.Add(f1), "added");
  if (C) V_ASSERT(l.Add(f2), "added");
  if (C) V_ASSERT(l.Add(f2), "added twice");
  Fn r = REMOVE == 0 ? f0 : REMOVE == 1 ? f1 : f2;
  bool had = REMOVE == 0 ? A : REMOVE == 1 ? B : C;
  V_ASSERT(l.Remove(r) == had, "removed iff registered");
  V_ASSERT(!l.Add(nullptr) && !l.Remove(nullptr), "no hook is no hook");
  uint64_t x = v::any<uint64_t>("arg");
  l.Invoke(x);
  V_ASSERT(g_calls[0] == (A && REMOVE != 0), "first hook called once iff registered");
  V_ASSERT(g_calls[1] == (B && REMOVE != 1), "second hook called once iff registered");
  V_ASSERT(g_calls[2] == (C ? 2u - (REMOVE == 2) : 0u), "third hook called once per registration");
  for (int i = 0; i < 3; i++) V_ASSERT(!g_calls[i] || g_arg[i] == x, "hooks get the argument");
}
V_HARNESS(invoke_a) { invoke<true, true, true, 0>(); invoke<true, true, true, 1>(); invoke<true, true, true, 2>(); }
V_HARNESS(invoke_b) { invoke<false, true, true, 0>(); invoke<true, false, true, 2>(); invoke<false, false, false, 1>(); }
V_HARNESS(initial) {
  Hook x = v::range("x", 1, 1ull << 48);
  List l(x);
  Hook out[2] = {};
  V_ASSERT(!l.empty() && l.Traverse(out, 2) == 1 && out[0] == x, "a list with an initial hook holds it");
  V_ASSERT(l.Remove(x) && l.empty(), "and it can be removed");
}
