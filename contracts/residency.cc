//@ property: C20
//@ repo: tcmalloc/internal/residency.cc
//@ defs: -Dlseek=v_lseek
//@ opt: many_.* weight=2 unroll=20000
//@ assume: ResidencyPageMap::Get unrolled for 1 to 4 pages (4, 64 KiB) and for page counts around the read buffer's 512 entries; a pagemap read returns the entries of the sought pages or fails
// C20: ResidencyPageMap.
#include <unistd.h>
#include "v.h"
#include "tcmalloc/internal/residency.h"
#include "tcmalloc/internal/util.h"
using namespace tcmalloc::tcmalloc_internal;
static size_t g_page;
static constexpr size_t kMaxPages = 1100;
static uint64_t g_entry[kMaxPages];  // pagemap entries of the pages of the range
static size_t g_pages;
static uint64_t g_first;             // file position of the first of them
static uint64_t g_pos;
static int g_fail_at, g_io;          // which I/O call fails
static int g_failed, g_closed;
static int g_fd;
namespace tcmalloc::tcmalloc_internal {
size_t GetPageSize() { return g_page; }
int signal_safe_open(const char*, int, ...) { return g_fd; }
int signal_safe_close(int) { return g_closed++, 0; }
ssize_t signal_safe_read(int fd, char* buf, size_t count, size_t*) {
  V_ASSERT(fd == g_fd, "reads the pagemap file");
  V_ASSERT(g_pos >= g_first && (g_pos - g_first) % 8 == 0 && count % 8 == 0, "whole entries are read");
  uint64_t i = (g_pos - g_first) / 8, n = count / 8;
  V_ASSERT(i <= g_pages && n <= g_pages - i, "nothing outside the pages of the range is queried");
  if (g_io++ == g_fail_at) {
    g_failed = 1;
    return v::any_bool("short") ? static_cast<ssize_t>(count) - 8 : -1;
  }
  uint64_t* out = reinterpret_cast<uint64_t*>(buf);
  for (uint64_t k = 0; k < n; k++) out[k] = g_entry[i + k];
  g_pos += count;
  return static_cast<ssize_t>(count);
}
}  // namespace tcmalloc::tcmalloc_internal
extern "C" off_t v_lseek(int fd, off_t off, int whence) {
  V_ASSERT(fd == g_fd && whence == SEEK_SET, "seeks in the pagemap file");
  if (g_io++ == g_fail_at) {
    g_failed = 1;
    return -1;
  }
  g_pos = static_cast<uint64_t>(off);
  return off;
}
template <typename T> static inline void setup(uint64_t base, T pages) {
  g_fd = 3;
  g_pages = pages;
  g_first = base / g_page * 8;
  g_pos = 0, g_io = 0, g_failed = 0, g_closed = 0, g_fail_at = -1;
}
static bool present(uint64_t e) { return e >> 63 & 1; }
static bool swapped(uint64_t e) { return e >> 62 & 1; }

template <size_t P> static inline void query(uint64_t base, uint64_t off, uint64_t tail, bool one_call_fails) {
  setup(base, P);
  g_fail_at = one_call_fails ? static_cast<int>(v::range("fail_at", 0, 4)) : -1;
  VObj<ResidencyPageMap> r;
  new (&*r) ResidencyPageMap();
  uint64_t size = P * g_page - off - tail;
  auto got = r->Get(reinterpret_cast<void*>(base + off), size);
  V_ASSERT(got.has_value() == !g_failed, "an answer iff every read succeeds");
  if (!got.has_value()) return;
  uint64_t in = 0, sw = 0;
  for (size_t i = 0; i < P; i++) {
    uint64_t bytes = g_page - (i == 0 ? off : 0) - (i == P - 1 ? tail : 0);
    in += present(g_entry[i]) ? bytes : 0;
    sw += swapped(g_entry[i]) ? bytes : 0;
    if (i < kMaxResidencyBits) V_ASSERT(got->page_is_resident.GetBit(i) == present(g_entry[i]), "resident pages are marked");
  }
  if (P < kMaxResidencyBits) V_ASSERT(!got->page_is_resident.GetBit(P), "no page outside the range is marked");
  V_ASSERT(got->bytes_resident == in, "exactly the resident bytes of the range");
  V_ASSERT(got->bytes_swapped == sw, "exactly the swapped bytes of the range");
}
template <size_t P, int sh> static inline void few() {
  g_page = size_t(1) << sh;
  uint64_t base = v::range("page", 0, 1ull << 36) << sh;
  uint64_t off = v::range("offset", 0, (1u << sh) - 1), tail = v::range("tail", 0, (1u << sh) - 1);
  V_ASSUME(off + tail < P * g_page);
  for (size_t i = 0; i < P; i++) g_entry[i] = v::any<uint64_t>("entry");
  query<P>(base, off, tail, true);
}
V_HARNESS(few_1) { few<1, 12>(); }
V_HARNESS(few_2) { few<2, 12>(); }
V_HARNESS(few_3) { few<3, 12>(); }
V_HARNESS(few_4) { few<4, 12>(); }
V_HARNESS(few_3_16) { few<3, 16>(); }
// Ranges needing several reads; symbolic entries where reads begin and end.
template <size_t P, int OFF, int TAIL> static inline void many() {
  g_page = 4096;
  for (size_t i = 0; i < P; i++) g_entry[i] = static_cast<uint64_t>(i * 2654435761u) << 33;
  for (size_t c = 0; c < P; c++)
    if (c < 2 || c + 2 >= P || (c % 512 >= 511 || c % 512 <= 1)) g_entry[c] = v::any<uint64_t>("entry");
  query<P>(0x7f0000000000, OFF, TAIL, false);
}
V_HARNESS(many_512) { many<512, 1, 4095>(); }
V_HARNESS(many_513) { many<513, 0, 1>(); }
V_HARNESS(many_514) { many<514, 4095, 0>(); }
V_HARNESS(many_515) { many<515, 7, 9>(); }
#if V_THOROUGH
V_HARNESS(many_1030) { many<1030, 7, 9>(); }
V_HARNESS(few_6) { few<6, 12>(); }
#endif
V_HARNESS(no_file) {
  g_page = 4096;
  setup(0, 0);
  g_fd = -1;
  VObj<ResidencyPageMap> r;
  new (&*r) ResidencyPageMap();
  V_ASSERT(!r->Get(reinterpret_cast<void*>(v::any<uint64_t>("addr")), v::any<uint64_t>("size")).has_value(), "no file: no answer");
  r->~ResidencyPageMap();
  V_ASSERT(g_closed == 0, "nothing to close");
}
V_HARNESS(nothing) {
  g_page = 4096;
  setup(0, 0);
  VObj<ResidencyPageMap> r;
  new (&*r) ResidencyPageMap();
  auto got = r->Get(reinterpret_cast<void*>(v::any<uint64_t>("addr")), 0);
  V_ASSERT(got.has_value() && got->bytes_resident == 0 && got->bytes_swapped == 0, "an empty range");
  r->~ResidencyPageMap();
  V_ASSERT(g_closed == 1, "the file is closed");
}
// The pages of one hugepage.
template <int sh> static inline void bitmaps() {
  constexpr size_t P = (size_t(2) << 20) >> sh;
  g_page = size_t(1) << sh;
  uint64_t base = v::range("hugepage", 0, 1ull << 26) << 21;
  setup(base, P);
  g_fail_at = static_cast<int>(v::range("fail_at", 0, 2)) - 1;
  for (size_t i = 0; i < P; i++) g_entry[i] = v::any<uint64_t>("entry");
  VObj<ResidencyPageMap> r;
  new (&*r) ResidencyPageMap();
  auto got = r->GetUnbackedAndSwappedBitmaps(reinterpret_cast<void*>(base));
  V_ASSERT((got.status == absl::StatusCode::kOk) == !g_failed, "succeeds iff the reads do");
  size_t p = v::range("probe", 0, P - 1);
  bool ok = got.status == absl::StatusCode::kOk;
  V_ASSERT(got.swapped.GetBit(p) == (ok && !present(g_entry[p]) && swapped(g_entry[p])), "exactly the swapped pages");
  V_ASSERT(got.unbacked.GetBit(p) == (ok && !present(g_entry[p]) && !swapped(g_entry[p])), "exactly the unbacked pages");
}
V_HARNESS(bitmaps_16) { bitmaps<16>(); }
V_HARNESS(bitmaps_12) { bitmaps<12>(); }
V_HARNESS(bitmaps_unaligned) {
  g_page = 4096;
  setup(0, 0);
  uint64_t a = v::range("addr", 0, 1ull << 47);
  V_ASSUME(a & ((2u << 20) - 1));
  VObj<ResidencyPageMap> r;
  new (&*r) ResidencyPageMap();
  V_ASSERT(r->GetUnbackedAndSwappedBitmaps(reinterpret_cast<void*>(a)).status == absl::StatusCode::kFailedPrecondition, "only whole hugepages");
  V_ASSERT(g_io == 0, "and nothing is read");
}
