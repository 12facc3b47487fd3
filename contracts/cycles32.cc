//@ property: C19
//@ assume: floating-point scaling in AsDuration is compared with the same expression over the exact tick count (IEEE operations as uninterpreted functions)
//@ assume: absl::Seconds(double) is an injective function of its argument (dependency contract); native replay uses the real one
//@ noinline: _ZN4absl7debian37SecondsIdTnNSt9enable_ifIXsr3std17is_floating_pointIT_EE5valueEiE4typeELi0EEENS0_8DurationES3_
//@ stub: _ZN4absl7debian37SecondsIdTnNSt9enable_ifIXsr3std17is_floating_pointIT_EE5valueEiE4typeELi0EEENS0_8DurationES3_ stub_Seconds
//@ keep: stub_Seconds
// C19: Cycles32.
#include "v.h"
#include "tcmalloc/internal/clock.h"
#include <string.h>
using namespace tcmalloc::tcmalloc_internal;
extern "C" __attribute__((noinline, used)) absl::Duration stub_Seconds(double d) {
  int64_t bits;
  memcpy(&bits, &d, 8);
  return absl::time_internal::MakeDuration(bits, 0u);
}

static int64_t g_now;
static double g_freq;
static int64_t Now() { return g_now; }
static double Freq() { return g_freq; }
static Clock clk() { return Clock{Now, Freq}; }
static uint32_t tick(int64_t t) { return static_cast<uint32_t>(static_cast<uint64_t>(t) >> 20); }
static uint64_t wide(int64_t t) { return static_cast<uint64_t>(t >> 20); }

V_HARNESS(update) {
  g_now = v::any<int64_t>("now");
  Cycles32 c(v::any<uint32_t>("old"));
  c.Update(clk());
  V_ASSERT(static_cast<bool>(c) && c.raw() != 0, "a taken timestamp is never mistaken for unset");
  V_ASSERT(c.raw() == tick(g_now) || (tick(g_now) == 0 && c.raw() == 1), "at most one tick is lost");
  c.Reset();
  V_ASSERT(!static_cast<bool>(c) && c.raw() == 0, "Reset makes it unset");
  Cycles32 d;
  V_ASSERT(!static_cast<bool>(d), "starts unset");
  V_COVER(tick(g_now) == 0, "sentinel tick");
}
static absl::Duration scaled(uint32_t ticks, double freq) {
  return absl::Seconds(static_cast<double>(ticks) * (1 << 20) / freq);
}
V_HARNESS(unset_is_infinite) {
  Cycles32 c;
  Clock::Snapshot s{v::any<int64_t>("now"), 1e9};
  V_ASSERT(c.AsDuration(s) == absl::InfiniteDuration(), "unset reads as infinitely long ago");
}
// Any two instants less than one epoch apart, in order.
struct Two {
  int64_t t0, t1;
  uint64_t d;
  Two() {
    t0 = v::any<int64_t>("t0");
    t1 = v::any<int64_t>("t1");
    V_ASSUME(t1 >= t0);
    d = wide(t1) - wide(t0);
    V_ASSUME(d < 0xFFFFFFFFull);
  }
};
V_HARNESS(elapsed) {
  Two t;
  V_ASSUME(tick(t.t0) != 0 && tick(t.t1) != 0);
  g_now = t.t0;
  Cycles32 c;
  c.Update(clk());
  g_freq = 2.5e9;
  V_ASSERT(c.AsDuration(Clock::Snapshot{t.t1, g_freq}) == scaled(static_cast<uint32_t>(t.d), g_freq), "elapsed time is exact in ticks");
  V_COVER(tick(t.t1) < tick(t.t0), "across wrap-around");
}
V_HARNESS(elapsed_clock) {
  Two t;
  V_ASSUME(tick(t.t0) != 0 && tick(t.t1) != 0);
  g_now = t.t0;
  Cycles32 c;
  c.Update(clk());
  g_now = t.t1;
  g_freq = 2.5e9;
  V_ASSERT(c.AsDuration(clk()) == scaled(static_cast<uint32_t>(t.d), g_freq), "elapsed time from the clock is exact in ticks");
}
// Around the sentinel one tick may be lost, never more.
V_HARNESS(elapsed_sentinel) {
  Two t;
  g_now = t.t0;
  Cycles32 c;
  c.Update(clk());
  g_freq = 2.5e9;
  absl::Duration r = c.AsDuration(Clock::Snapshot{t.t1, g_freq});
  uint32_t e = static_cast<uint32_t>(t.d);
  V_ASSERT(r == scaled(e, g_freq) || r == scaled(e + 1, g_freq) || (e != 0 && r == scaled(e - 1, g_freq)), "at most one tick is lost");
  if (e == 0) V_ASSERT(r == scaled(e, g_freq), "no time has passed within a tick");
  V_COVER(tick(t.t0) == 0 && e == 0, "same tick, at the sentinel");
}
V_HARNESS(order) {
  uint64_t a = v::any<uint64_t>("a"), d = v::range("d", 0, 0x7fffffff);
  Cycles32 x(static_cast<uint32_t>(a)), y(static_cast<uint32_t>(a + d));
  V_ASSERT(y.TimeAfterOrEqual(x), "later is after");
  V_ASSERT(x.TimeAfterOrEqual(y) == (d == 0), "earlier is not after unless equal");
}
// Ordering depends only on the elapsed ticks, wherever the counter is.
V_HARNESS(order_shift) {
  uint32_t a = v::any<uint32_t>("a"), b = v::any<uint32_t>("b"), s = v::any<uint32_t>("s");
  Cycles32 x(a), y(b), xs(a + s), ys(b + s);
  V_ASSERT(x.TimeAfterOrEqual(y) == xs.TimeAfterOrEqual(ys), "ordering is the same at every counter value");
}
V_HARNESS(order_updates) {
  Two t;
  V_ASSUME(t.d < 0x7fffffff);
  Cycles32 x, y;
  g_now = t.t0;
  x.Update(clk());
  g_now = t.t1;
  y.Update(clk());
  V_ASSERT(y.TimeAfterOrEqual(x) || (t.d == 0), "updates are ordered");
  V_ASSERT(t.d > 1 ? !x.TimeAfterOrEqual(y) : true, "strictly ordered beyond the resolution");
}
V_HARNESS(snapshot) {
  g_now = v::any<int64_t>("now");
  g_freq = 1e9;
  Clock::Snapshot s = clk().GetSnapshot();
  V_ASSERT(s.now == g_now && s.freq == g_freq, "snapshot");
}
