//@ property: C26
//@ variant: default:
//@ opt: .* lia=10
//@ assume: SNPrintF (absl) is replaced by its contract: it writes at most n bytes, a prefix of the text and a terminator, and returns the length of the whole text or a negative error
//@ assume: Append calls of one to four pieces; buffers, positions and pieces of any size up to 2^40 bytes each
// C26: every operation of Printer from an arbitrary well-formed state, for
// every buffer size, position and length of text.
#include "v.h"
#include <algorithm>
#include <initializer_list>
#include <optional>
#include <string>
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/time/time.h"
#define private public
#include "tcmalloc/internal/logging.h"
#undef private
using tcmalloc::tcmalloc_internal::Printer;

#ifdef V_NATIVE
static constexpr uint64_t kBig = 4000;
#else
static constexpr uint64_t kBig = uint64_t{1} << 40;
#endif
#ifdef V_NATIVE
static constexpr uint64_t kMaxRet = 4000;
#else
static constexpr uint64_t kMaxRet = 0x7fffffff;
#endif
static char* g_buf;   // the buffer
static size_t g_len;
static char* g_text;  // what the next printf prints
static size_t g_avail;
static int g_ret;
static int g_calls;
extern "C" int __v_snprintf(char* b, size_t n) {
  g_calls++;
  V_ASSERT(b >= g_buf && b <= g_buf + g_len && n <= static_cast<size_t>(g_buf + g_len - b), "formatting stays inside the buffer");
  if (g_ret >= 0 && n > 0) {
    size_t k = static_cast<size_t>(g_ret) < n - 1 ? g_ret : n - 1;
    memcpy(b, g_text, k);
    b[k] = 0;
  }
  return g_ret;
}
static size_t any_len() { return v::range("len", 0, kBig); }

// An arbitrary well-formed state.  Live: everything so far fits and ends with
// its terminator at `pos`.  Otherwise the text was cut off, `pos` is where.
struct State {
  VObj<Printer> p;
  size_t pos, required, byte;
  char old;
  bool live;
};
static inline void any_state(State& s, bool live) {
  g_len = v::range("size", 1, kBig);
  g_buf = static_cast<char*>(__v_arr(1, g_len, "buf"));
  s.live = live;
  s.pos = v::range("pos", 0, kBig);
  V_ASSUME(s.pos < g_len);
  V_ASSUME(g_buf[s.pos] == 0);
  if (live) {
    s.p->buf_ = g_buf + s.pos;
    s.p->left_ = g_len - s.pos;
    s.required = s.pos;
  } else {
    size_t q = v::range("next", 0, kBig);
    V_ASSUME(q <= g_len);
    s.p->buf_ = g_buf + q;
    s.p->left_ = 0;
    s.required = v::range("required", 0, kBig);
    V_ASSUME(s.required > s.pos);
  }
  s.p->required_ = s.required;
  s.byte = v::range("byte", 0, kBig);
  V_ASSUME(s.byte < g_len);
  s.old = g_buf[s.byte];
}
// The text now ends at `pos`.
static inline void check_live(State& s, size_t pos) {
  V_ASSERT(s.p->left_ == g_len - pos && s.p->buf_ == g_buf + pos, "the next text goes right after this one");
  V_ASSERT(g_buf[pos] == 0, "the text is terminated");
}
static inline void check_cut(State& s, size_t pos) {
  V_ASSERT(s.p->left_ == 0, "after text that did not fit nothing more is printed");
  V_ASSERT(pos < g_len && g_buf[pos] == 0, "the text is terminated");
}
V_HARNESS(start) {
  g_len = v::range("size", 1, kBig);
  g_buf = static_cast<char*>(__v_arr(1, g_len, "buf"));
  size_t j = v::range("byte", 0, kBig);
  V_ASSUME(j < g_len);
  char old = g_buf[j];
  Printer p(g_buf, g_len);
  V_ASSERT(p.SpaceRequired() == 0, "nothing printed yet");
  V_ASSERT(p.buf_ == g_buf && p.left_ == g_len, "the whole buffer is free");
  V_ASSERT(g_buf[0] == 0, "the text is terminated");
  if (j > 0) V_ASSERT(g_buf[j] == old, "the rest is untouched");
}
static inline void format(bool live) {
  State s;
  any_state(s, live);
  g_ret = static_cast<int>(v::range("ret", 0, kMaxRet));
  g_text = static_cast<char*>(__v_arr(1, kMaxRet, "text"));
  g_calls = 0;
  s.p->printf("%s", "text");
  size_t r = g_ret;
  V_ASSERT(g_calls == 1, "printed once");
  V_ASSERT(s.p->SpaceRequired() == s.required + r, "the space the full text needs");
  if (!live) {
    check_cut(s, s.pos);
    V_ASSERT(g_buf[s.byte] == s.old, "the text stays");
    return;
  }
  size_t got = r < g_len - s.pos ? r : g_len - s.pos - 1;
  if (r < g_len - s.pos) check_live(s, s.pos + r);
  else check_cut(s, g_len - 1);
  if (s.byte < s.pos || s.byte > s.pos + got) V_ASSERT(g_buf[s.byte] == s.old, "the text stays and nothing else is written");
  else if (s.byte < s.pos + got) V_ASSERT(g_buf[s.byte] == g_text[s.byte - s.pos], "as much of the text as fits");
}
V_HARNESS(printf_live) { format(true); }
V_HARNESS(printf_cut) { format(false); }
V_HARNESS(printf_error) {
  State s;
  any_state(s, v::any_bool("live"));
  g_ret = -1 - static_cast<int>(v::range("err", 0, 1 << 20));
  s.p->printf("%s", "text");
  V_ASSERT(s.p->SpaceRequired() == s.required, "no text, no space");
  check_cut(s, s.pos);
  V_ASSERT(g_buf[s.byte] == s.old, "the text stays");
}
struct Piece { char* p; size_t n; };
static inline Piece piece() {
  Piece r;
  r.n = v::range("piece", 0, kBig);
  r.p = static_cast<char*>(__v_arr(1, r.n + 1, "chars"));
  return r;
}
template <int N> static inline void append(bool live) {
  State s;
  any_state(s, live);
  Piece a[4] = {};
  absl::string_view w[4];
  size_t total = 0;
  for (int i = 0; i < N; i++) {
    a[i] = piece();
    w[i] = absl::string_view(a[i].p, a[i].n);
    total += a[i].n;
  }
  if constexpr (N == 1) s.p->Append(w[0]);
  else if constexpr (N == 2) s.p->Append(w[0], w[1]);
  else if constexpr (N == 3) s.p->Append(w[0], w[1], w[2]);
  else s.p->Append(w[0], w[1], w[2], w[3]);
  V_ASSERT(s.p->SpaceRequired() == s.required + total, "the space the full text needs");
  if (!live || total >= g_len - s.pos) {
    check_cut(s, s.pos);
    V_ASSERT(g_buf[s.byte] == s.old, "the text stays");
    return;
  }
  check_live(s, s.pos + total);
  if (s.byte < s.pos || s.byte > s.pos + total) V_ASSERT(g_buf[s.byte] == s.old, "the text stays and nothing else is written");
  size_t at = s.pos;
  for (int i = 0; i < N; i++) {
    if (s.byte >= at && s.byte < at + a[i].n) V_ASSERT(g_buf[s.byte] == a[i].p[s.byte - at], "the pieces in order");
    at += a[i].n;
  }
}
V_HARNESS(append_1) { append<1>(true); }
V_HARNESS(append_2) { append<2>(true); }
V_HARNESS(append_3) { append<3>(true); }
V_HARNESS(append_4) { append<4>(true); }
V_HARNESS(append_cut_1) { append<1>(false); }
V_HARNESS(append_cut_4) { append<4>(false); }
