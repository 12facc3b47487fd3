// Loop invariants for the loops of /repo marked TCMALLOC_LOOP_INVARIANT, and
// the ghost state they speak about.  An invariant may update ghost state
// (witnesses of existential claims) before it is evaluated.
#ifndef TCMALLOC_INVARIANTS_H_
#define TCMALLOC_INVARIANTS_H_
#include <stddef.h>
#include <stdint.h>
#include "v.h"
#ifdef V_INV
#define TCMALLOC_LOOP_INVARIANT(name, ...) (__v_inv(::vinv::name(__VA_ARGS__)), true)
#else
#define TCMALLOC_LOOP_INVARIANT(name, ...) true  // loops are unrolled completely
#endif

namespace vinv {
// [s, s+l) is a maximal run of clear bits.
template <typename B>
inline bool is_run(const B& b, size_t s, size_t l) {
  const size_t N = b.size();
  return l >= 1 && s < N && l <= N - s && b.FindSet(s) == s + l && (s == 0 || b.GetBit(s - 1));
}
// Arbitrary but fixed maximal runs ("for every run"), witnesses of the longest
// and second longest run seen.
inline size_t rt_q[2], rt_l[2], rt_w, rt_w2;

template <typename B>
inline bool range_tracker_find(const B& b, size_t n, size_t index, size_t longest, size_t second, size_t best_index, size_t best_len) {
  const size_t N = b.size();
  if (index > N) return false;
  if (index != 0) {
    size_t cur = b.FindSetBackwards(index - 1) + 1;
    if (!(is_run(b, rt_w, longest) && rt_w + longest <= index)) {
      rt_w2 = rt_w;
      rt_w = cur;
    } else if (second != 0 && !(is_run(b, rt_w2, second) && rt_w2 != rt_w && rt_w2 + second <= index)) {
      rt_w2 = cur;
    }
  }
  bool r = index == 0 || index == N || b.GetBit(index);
  r = r && (index == 0 || !b.GetBit(index - 1));
  r = r && (longest == 0) == (index == 0) && second <= longest;
  r = r && (longest == 0 || (is_run(b, rt_w, longest) && rt_w + longest <= index));
  r = r && (second == 0 || (is_run(b, rt_w2, second) && rt_w2 != rt_w && rt_w2 + second <= index));
  bool found = best_index < N;
  r = r && (found ? is_run(b, best_index, best_len) && best_len >= n && best_index + best_len <= index && best_len <= longest &&
                        (best_index == rt_w || best_len <= second)
                  : best_index == N && best_len == 2 * N);
  for (int k = 0; k < 2; k++) {
    size_t q = rt_q[k], l = rt_l[k];
    if (q < index) {
      r = r && l <= longest && (q == rt_w || l <= second);
      r = r && (l < n || (found && (l > best_len || (l == best_len && q >= best_index))));
    }
  }
  return r;
}
template <typename B>
inline bool range_tracker_mark(const B& b, size_t index, size_t longest) {
  const size_t N = b.size();
  if (index > N) return false;
  if (index != 0 && !(is_run(b, rt_w, longest) && rt_w + longest <= index)) rt_w = b.FindSetBackwards(index - 1) + 1;
  bool r = index == 0 || index == N || b.GetBit(index);
  r = r && (index == 0 || !b.GetBit(index - 1));
  r = r && (longest == 0) == (index == 0);
  r = r && (longest == 0 || (is_run(b, rt_w, longest) && rt_w + longest <= index));
  r = r && !(rt_q[0] < index && rt_l[0] > longest);
  return r;
}

// ---- MInCore::residence_impl.  mc_resident is an arbitrary assignment of
// residency to pages; mc_sum(p) the number of resident pages between the
// second page of the range and p (given by its recursion equations).
inline uint64_t mc_page, mc_first, mc_first_bytes;   // page size, first page, bytes counted for it
inline uint64_t mc_call_base, mc_call_len;           // last successful query
inline int mc_failed;
inline bool mc_resident(uint64_t page) { return __v_uf("resident", page, 0, 0, 0) & 1; }
inline uint64_t mc_sum(uint64_t page) { return __v_uf("resident_before", page, 0, 0, 0); }
template <size_t K>
inline bool mincore_pages(uint64_t base, uint64_t remaining, uint64_t end, uint64_t total, int index, const unsigned char (&res)[K]) {
  // instances of the recursion equations and of mincore()'s contract
  V_ASSUME(mc_sum(base + mc_page) == mc_sum(base) + (mc_resident(base) ? 1 : 0));
  bool r = index >= 0 && static_cast<size_t>(index) < K && base + remaining == end && remaining >= mc_page && base > mc_first;
  r = r && (base & (mc_page - 1)) == 0 && (end & (mc_page - 1)) == 0;
  r = r && base >= mc_call_base && base < mc_call_base + mc_call_len && base - mc_call_base == static_cast<uint64_t>(index) * mc_page;
  r = r && mc_call_base + mc_call_len <= end && (mc_call_base + mc_call_len == end || mc_call_len == K * mc_page);
  r = r && total == mc_first_bytes + mc_sum(base) * mc_page;
  r = r && mc_failed == 0;
  if (r) V_ASSUME((res[index] & 1) == mc_resident(base));
  return r;
}

// ---- SystemAllocator::MmapAlignedLocked: the hint tried next is aligned and a
// range of the size from there carries the tag.
inline int ma_maps;  // mappings made
template <typename Tag>
inline bool mmap_aligned(uint64_t next, uint64_t size, uint64_t alignment, Tag tag) {
  const uint64_t t = static_cast<uint64_t>(tag);
  return ma_maps == 0 && next != 0 && (next & (alignment - 1)) == 0 && next < uint64_t{1} << 47 && size <= (uint64_t{1} << 47) - next && (next >> 42 & 7) == t &&
         ((next + size - 1) >> 42 & 7) == t;
}

// ---- ParseCpulist.  The text is an arbitrary function of the position, of
// length cl_len; cl_den(from, p) is what the text from p on denotes, for one
// arbitrary CPU: 0 (well-formed, not listed), 1 (listed), 2 (malformed), given
// that a range starting at `from` (-1: none) is open.  It is given by its
// recursion equations.
inline uint64_t cl_len, cl_pos, cl_start, cl_result;
inline int cl_cpu;
inline uint64_t cl_carry;  // case split: bytes carried over
inline int cl_failed, cl_in;  // cl_in: the CPU is in the set at the head of the outer loop
inline constexpr int kClWindow = 16, kClMax = 2048;
inline char cl_text(uint64_t p) { return static_cast<char>(__v_uf("text", p, 0, 0, 0)); }
inline bool cl_atoi(uint64_t p, uint64_t k, int* v) {
  uint64_t r = __v_uf("atoi", p, k, 0, 0);
  *v = static_cast<int>(r >> 1);
  return r & 1;
}
inline uint64_t cl_den(int from, uint64_t p) {
  const uint64_t d = __v_uf("denotes", static_cast<uint32_t>(from), p, 0, 0);
  return d > 2 ? 2 : d;
}
inline uint64_t cl_both(uint64_t den, bool in) { return den == 2 ? 2 : (den == 1) | in; }
inline uint64_t cl_equation(int from, uint64_t p) {
  const uint64_t left = cl_len - p;
  if (left == 0 || (left == 1 && cl_text(p) == '\n')) return from == -1 ? 0 : 2;
  uint64_t k = left < kClWindow ? left : kClWindow;
  bool dash = false, comma = false;
  for (int i = kClWindow - 1; i >= 0; i--) {
    const char c = cl_text(p + i);
    const bool sep = static_cast<uint64_t>(i) < left && (c == '-' || c == ',');
    k = sep ? i : k;
    dash = sep ? c == '-' : dash;
    comma = sep ? c == ',' : comma;
  }
  if (k == kClWindow) return 2;  // an entry this long is no CPU number
  int n;
  if (!cl_atoi(p, k, &n) || n < 0 || n >= kClMax) return 2;
  if (dash) return from != -1 ? 2 : cl_den(n, p + k + 1);
  if (n < from) return 2;
  const bool in = from == -1 ? n == cl_cpu : from <= cl_cpu && cl_cpu <= n;
  return comma ? cl_both(cl_den(-1, p + k + 1), in) : in;
}
template <typename Set, typename Buf>
inline bool cpulist(const Set& set, const Buf& buf, uint64_t carry, int from) {
  carry = __v_split(carry, cl_carry);
  // without loss of generality: nothing depends on the position but the text
  cl_pos = __v_split(cl_pos, 1000 + cl_carry);
  bool r = cl_failed == 0 && carry <= kClWindow && cl_pos <= cl_len && carry <= cl_pos && from >= -1 && from < kClMax;
  if (!r) return false;
  cl_start = cl_pos - carry;
  cl_in = set.IsSet(cl_cpu);
  for (uint64_t i = 0; i < kClWindow; i++) r = r & (i >= carry || buf[i] == cl_text(cl_start + i)) & (carry != kClWindow || (buf[i] != '-' && buf[i] != ','));
  if (__v_assuming()) V_ASSUME(cl_den(from, cl_start) == cl_equation(from, cl_start));
  r = r & (cl_result == cl_both(cl_den(from, cl_start), set.IsSet(cl_cpu)));
  return r;
}
template <typename Set>
inline bool cpulist_range(const Set& set, int c, int from, int to) {
  return from >= 0 && to < kClMax && from <= c && c <= to + 1 && set.IsSet(cl_cpu) == (cl_in != 0 || (from <= cl_cpu && cl_cpu < c));
}
// NumPossibleCPUsNoCache: the members below i, for one arbitrary CPU.
template <typename Set, typename Opt>
inline bool cpu_max(const Set& set, int i, const Opt& max) {
  if (i < 0 || i > kClMax || reinterpret_cast<const unsigned char*>(&max)[sizeof(int)] > 1) return false;  // has_value() is a bool
  const bool in = cl_cpu < i && set.IsSet(cl_cpu);
  return max.has_value() ? *max >= 0 && *max < i && set.IsSet(*max) && (!in || cl_cpu <= *max) : !in;
}
// TransferCache::TryPlunder.  tp_used, tp_cap, tp_low: before the call; the
// object at position tp_probe of the array has been passed on tp_passed times.
inline int tp_used, tp_cap, tp_low, tp_probe, tp_passed;
inline uintptr_t tp_object;
template <typename Cache>
inline bool transfer_cache_plunder(Cache& t, int to_return) {
  const auto i = t.GetSlotInfo();
  bool r = i.capacity == tp_cap && 0 <= i.used && i.used <= tp_used && 0 <= to_return && to_return == tp_low - (tp_used - i.used);
  r = r && t.low_water_mark_ == i.used && t.lock_.IsHeld();
  r = r && tp_passed == (tp_probe < tp_used && tp_probe >= i.used);
  return r && reinterpret_cast<uintptr_t>(t.slots_[tp_probe]) == tp_object;
}
}  // namespace vinv
#endif
