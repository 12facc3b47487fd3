//@ property: C25
//@ opt: .* lia=10
//@ assume: fewer than 2^52 epochs are covered when a part of the series is asked for;  clock readings are not negative; an epoch is at least one tick
//@ assume: the exactness of the epoch number is proved for each of the epoch lengths listed here (1 tick to 2^62 ticks, powers of two and their neighbours, common clock rates) and every clock reading; the slots for series of 3 and 16 slots
//@ assume: absl::FDivDuration and ToDoubleSeconds divide the two tick counts as doubles (dependency contract)
//@ stub: _ZN4absl7debian315ToDoubleSecondsENS0_8DurationE stub_ToDoubleSeconds
//@ stub: _ZN4absl7debian312FDivDurationENS0_8DurationES1_ stub_FDiv
//@ keep: stub_FDiv stub_ToDoubleSeconds stub_epoch
//@ noinline: _ZN8tcmalloc17tcmalloc_internal17TimeSeriesTrackerI3RecmLm3EE15GetCurrentEpochEv
//@ stub: _ZN8tcmalloc17tcmalloc_internal17TimeSeriesTrackerI3RecmLm3EE15GetCurrentEpochEv stub_epoch
//@ noinline: _ZN8tcmalloc17tcmalloc_internal17TimeSeriesTrackerI3RecmLm16EE15GetCurrentEpochEv
//@ stub: _ZN8tcmalloc17tcmalloc_internal17TimeSeriesTrackerI3RecmLm16EE15GetCurrentEpochEv stub_epoch
//@ noinline: _ZN8tcmalloc17tcmalloc_internal17TimeSeriesTrackerI3RecmLm5EE15GetCurrentEpochEv
//@ stub: _ZN8tcmalloc17tcmalloc_internal17TimeSeriesTrackerI3RecmLm5EE15GetCurrentEpochEv stub_epoch
// C25: TimeSeriesTracker.
#include "v.h"
#define private public
#include "tcmalloc/internal/timeseries_tracker.h"
#undef private
using namespace tcmalloc::tcmalloc_internal;
using u128 = unsigned __int128;

static double as_ticks(absl::Duration d) {
  return static_cast<double>(absl::time_internal::GetRepHi(d)) * 4e9 + absl::time_internal::GetRepLo(d);
}
extern "C" __attribute__((noinline, used)) double stub_FDiv(absl::Duration a, absl::Duration b) { return as_ticks(a) / as_ticks(b); }
extern "C" __attribute__((noinline, used)) double stub_ToDoubleSeconds(absl::Duration d) { return as_ticks(d) / 4e9; }
static int64_t g_now;
static double g_freq;
static int64_t Now() { return g_now; }
static double Freq() { return g_freq; }
static int64_t g_epoch;  // of g_now
// GetCurrentEpoch, whose contract is proved below (for series of 2 slots).
extern "C" __attribute__((noinline, used)) int64_t stub_epoch(void*) { return g_epoch; }
static Clock clk() { return Clock{Now, Freq}; }
struct Rec {
  uint64_t n, sum;
  static Rec Nil() { return Rec{0, 0}; }
  void Report(uint64_t x) {
    n++;
    sum += x;
  }
  bool empty() const { return n == 0; }
};

// The epoch of every clock reading, for epochs of d ticks.
template <uint64_t d>
static void epoch_exact() {
  g_freq = static_cast<double>(d);
  g_now = 0;
  TimeSeriesTracker<Rec, uint64_t, 2> t(clk(), absl::Seconds(1));
  V_ASSERT(t.last_epoch_ == 0 && t.covered_epochs_ == 1 && t.current_slot_ == 0, "a new series covers the current epoch");
  V_ASSERT(t.entries_[0].epoch_delta == 1 && t.entries_[0].payload.empty() && t.entries_[1].epoch_delta == 0, "a new series is empty");
  g_now = v::range("now", 0, INT64_MAX);
  uint64_t now = g_now;
  int64_t e = t.GetCurrentEpoch();
  uint64_t ue = e;
  V_ASSERT(e >= 0 && u128(ue) * d <= now && now - ue * d < d, "the epoch is the exact quotient");
}
#define EPOCH(name, d) V_HARNESS(epoch_##name) { epoch_exact<d>(); }
EPOCH(1, 1)
EPOCH(2, 2)
EPOCH(3, 3)
EPOCH(4, 4)
EPOCH(5, 5)
EPOCH(7, 7)
EPOCH(10, 10)
EPOCH(641, 641)
EPOCH(2p20, 1u << 20)
EPOCH(1e9, 1000000000)
EPOCH(2p30m1, (1u << 30) - 1)
EPOCH(2p30, 1u << 30)
EPOCH(2p30p1, (1u << 30) + 1)
EPOCH(2400MHz, 2400000000)
EPOCH(2p32m1, (uint64_t{1} << 32) - 1)
EPOCH(2p32p1, (uint64_t{1} << 32) + 1)
EPOCH(60GHz, 60000000000)
EPOCH(5min, 899999700000)
EPOCH(2p40p1, (uint64_t{1} << 40) + 1)
EPOCH(2p53m1, (uint64_t{1} << 53) - 1)
EPOCH(2p62, uint64_t{1} << 62)

// Epoch lengths other than a second.
V_HARNESS(epoch_length) {
  g_freq = 1e9;
  g_now = 0;
  TimeSeriesTracker<Rec, uint64_t, 2> t(clk(), absl::Milliseconds(5));
  g_now = v::range("now", 0, INT64_MAX);
  uint64_t now = g_now, ue = t.GetCurrentEpoch();
  V_ASSERT(u128(ue) * 5000000 <= now && now - ue * 5000000 < 5000000, "the epoch is the exact quotient");
}

// Any state with k slots whose current one is c; a tick is an epoch / 1000.
template <size_t k>
struct State {
  using Tracker = TimeSeriesTracker<Rec, uint64_t, k>;
  Tracker t;
  size_t c, last, delta[k], covered = 0;
  Rec r[k];
  static Clock start() {
    g_freq = 1000;
    g_now = 0;
    g_epoch = 0;
    return clk();
  }
  explicit State(size_t cur) : t(start(), absl::Seconds(1)), c(cur) {
    t.current_slot_ = c;
    last = t.last_epoch_ = v::range("last", 0, INT64_MAX / 1000);
    for (size_t i = 0; i < k; i++) {
      delta[i] = v::range("delta", 0, INT64_MAX / 1000);
      covered += delta[i];
      V_ASSUME(covered <= last + 1);
      r[i].n = v::range("n", 0, UINT32_MAX);
      r[i].sum = v::range("sum", 0, UINT32_MAX);
      t.entries_[i].epoch_delta = delta[i];
      t.entries_[i].payload = r[i];
    }
    t.covered_epochs_ = covered;
    V_ASSUME(delta[c] >= 1);
  }
  void inv() {
    size_t sum = 0;
    for (size_t i = 0; i < k; i++) sum += t.entries_[i].epoch_delta;
    V_ASSERT(t.covered_epochs_ == sum, "the time covered is the sum of the gaps");
    V_ASSERT(t.current_slot_ < k && t.entries_[t.current_slot_].epoch_delta >= 1, "the current slot is in use");
    V_ASSERT(sum <= t.last_epoch_ + 1, "no more time is covered than there has been");
  }
  // Unchanged except for slot c.
  void others(size_t x) {
    for (size_t i = 0; i < k; i++)
      if (i != x) V_ASSERT((t.entries_[i].epoch_delta == delta[i]) & (t.entries_[i].payload.n == r[i].n) & (t.entries_[i].payload.sum == r[i].sum), "other slots are left alone");
  }
  void is(size_t x, size_t d, uint64_t n, uint64_t sum) {
    V_ASSERT(t.entries_[x].epoch_delta == d, "the gap of the current slot");
    V_ASSERT(t.entries_[x].payload.n == n && t.entries_[x].payload.sum == sum, "the record of the current slot");
  }
};
enum When { kBack, kSame, kLater };
template <size_t k>
static void update(size_t cur, When when, bool report) {
  State<k> s(cur);
  size_t e = v::range("epoch", 0, INT64_MAX / 1000 - 1);
  g_epoch = e;
  g_now = e * 1000 + v::range("rest", 0, 999);
  V_ASSUME(when == kBack ? e < s.last : when == kSame ? e == s.last : e > s.last);
  uint64_t x = v::range("val", 0, UINT32_MAX);
  bool moved = false;
  if (report) moved = s.t.Report(x);
  else s.t.UpdateTimeBase();
  uint64_t n = report ? 1 : 0, sum = report ? x : 0;
  V_ASSERT(s.t.last_epoch_ == e, "the last epoch is the current one");
  s.inv();
  if (when == kSame) {
    V_ASSERT(!moved && s.t.current_slot_ == s.c && s.t.covered_epochs_ == s.covered, "the slot stays within an epoch");
    s.others(s.c);
    s.is(s.c, s.delta[s.c], s.r[s.c].n + n, s.r[s.c].sum + sum);
  } else if (when == kLater) {
    size_t next = s.c + 1 == k ? 0 : s.c + 1;
    V_ASSERT(s.t.current_slot_ == next && (moved || !report), "a new epoch advances by one slot");
    s.others(next);
    s.is(next, e - s.last, n, sum);
  } else {
    V_ASSERT(!moved && s.t.current_slot_ == 0 && s.t.covered_epochs_ == 1, "a clock gone backwards resets the series");
    for (size_t i = 1; i < k; i++) s.is(i, 0, 0, 0);
    s.is(0, 1, n, sum);
  }
}
#define UPDATE(k, c)                                              \
  V_HARNESS(same_##k##_##c) { update<k>(c, kSame, false); }       \
  V_HARNESS(later_##k##_##c) { update<k>(c, kLater, false); }     \
  V_HARNESS(back_##k##_##c) { update<k>(c, kBack, false); }       \
  V_HARNESS(report_same_##k##_##c) { update<k>(c, kSame, true); } \
  V_HARNESS(report_later_##k##_##c) { update<k>(c, kLater, true); } \
  V_HARNESS(report_back_##k##_##c) { update<k>(c, kBack, true); }
UPDATE(3, 0)
UPDATE(3, 1)
UPDATE(3, 2)
UPDATE(16, 0)
UPDATE(16, 7)
UPDATE(16, 15)

template <size_t k>
static void iter(size_t cur) {
  State<k> s(cur);
  bool seen[k] = {};
  size_t next = 0;
  s.t.Iter([&](size_t seq, size_t d, const Rec& r) {
    V_ASSERT(seq < k && seq >= next, "the entries are visited in order");
    size_t i = (s.c + 1 + seq) % k;
    V_ASSERT((d == s.delta[i]) & (r.n == s.r[i].n) & (r.sum == s.r[i].sum), "each entry from the oldest on");
    seen[seq] = true;
    next = seq + 1;
  });
  for (size_t q = 0; q < k; q++) V_ASSERT(seen[q] == (s.r[(s.c + 1 + q) % k].n != 0), "exactly the entries with data are visited");
}
// The newest entries, until they cover the epochs asked for.
template <size_t k>
static void backwards(size_t cur, size_t epochs, absl::Duration interval) {
  State<k> s(cur);
  V_ASSUME(s.covered < uint64_t{1} << 52);  // exact as a double
  if (epochs > s.covered) epochs = s.covered;
  size_t at = 0, sum = 0;
  s.t.IterBackwards([&](size_t seq, size_t d, const Rec& r) {
    size_t i = (s.c + k - at % k) % k;
    V_ASSERT(at < k && sum < epochs, "no entry beyond the time asked for is visited");
    V_ASSERT((seq == at) & (d == s.delta[i]) & (r.n == s.r[i].n) & (r.sum == s.r[i].sum), "each entry from the newest on");
    sum += d;
    at++;
  }, interval);
  V_ASSERT(sum >= epochs || at == std::min(k, epochs), "all the time asked for is visited");
}
static constexpr size_t kAll = ~size_t{0};
template <size_t k>
static void recent(size_t cur) {
  State<k> s(cur);
  auto v = s.t.GetMostRecentRecord();
  size_t i = s.c == 0 ? k - 1 : s.c - 1;
  V_ASSERT(v.epoch_taken == s.delta[s.c] && v.data.n == s.r[i].n && v.data.sum == s.r[i].sum, "the entry before the current one");
}
#define READ(k, c)                                     \
  V_HARNESS(iter_##k##_##c) { iter<k>(c); }            \
  V_HARNESS(recent_##k##_##c) { recent<k>(c); }
READ(3, 0)
READ(3, 1)
READ(3, 2)
READ(16, 0)
READ(16, 7)
READ(16, 15)
#define BACK(k, c)                                                                                    \
  V_HARNESS(backwards_##k##_##c) { backwards<k>(c, kAll, absl::InfiniteDuration()); }                 \
  V_HARNESS(backwards_none_##k##_##c) { backwards<k>(c, 0, absl::ZeroDuration()); }                   \
  V_HARNESS(backwards_part_##k##_##c) { backwards<k>(c, 1, absl::Milliseconds(1)); }                  \
  V_HARNESS(backwards_1_##k##_##c) { backwards<k>(c, 1, absl::Seconds(1)); }                          \
  V_HARNESS(backwards_1_part_##k##_##c) { backwards<k>(c, 2, absl::Milliseconds(1001)); }             \
  V_HARNESS(backwards_4_##k##_##c) { backwards<k>(c, 4, absl::Seconds(4)); }                          \
  V_HARNESS(backwards_many_##k##_##c) { backwards<k>(c, 1000, absl::Seconds(1000)); }
BACK(3, 0)
BACK(3, 1)
BACK(3, 2)
BACK(5, 0)
BACK(5, 3)
