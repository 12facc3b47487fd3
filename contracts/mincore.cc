//@ property: C20
//@ repo: tcmalloc/internal/mincore.cc
//@ variant: default:
//@ variant: inv:-DV_INV
//@ opt: inv_.* inv=1 weight=3 solve_timeout=150
//@ opt: pages_.* weight=2 unroll=20000
//@ assume: mincore()/pagemap reads answer from one fixed assignment of residency to pages; ranges do not wrap around the address space
//@ assume: MInCore::residence_impl for every page count through a loop invariant (4 KiB pages); unrolled for 1 to 4 pages of 4, 16 and 64 KiB and, for some residency patterns, for page counts around the query buffer's 4096
// C20: MInCore::residence_impl.
#include "v.h"
#include <initializer_list>
#include "tcmalloc_invariants.h"
#include "tcmalloc/internal/mincore.h"
#include "tcmalloc/internal/page_size.h"
static size_t g_page;
namespace tcmalloc::tcmalloc_internal {
size_t GetPageSize() { return g_page; }
class MInCoreTest {
 public:
  static size_t residence(uint64_t a, size_t n, MInCoreInterface* m) {
    return MInCore::residence_impl(reinterpret_cast<void*>(a), n, m);
  }
  static constexpr size_t kChunk = MInCore::kArrayLength;
};
}  // namespace tcmalloc::tcmalloc_internal
using namespace tcmalloc::tcmalloc_internal;
static constexpr size_t K = MInCoreTest::kChunk;
static int g_failed;
static uint64_t g_lo, g_hi;  // page-aligned hull of the range

#ifndef V_INV
template <size_t MAX> struct Fake final : MInCoreInterface {
  uint8_t bit[MAX];
  int fail_at = -1, calls = 0;
  int mincore(void* addr, size_t len, unsigned char* out) override {
    uint64_t a = reinterpret_cast<uint64_t>(addr);
    V_ASSERT((a & (g_page - 1)) == 0, "queries start at a page");
    V_ASSERT(a >= g_lo && len <= g_hi - a, "nothing outside the pages of the range is queried");
    if (calls++ == fail_at) {
      g_failed = 1;
      return -1;
    }
    size_t first = (a - g_lo) / g_page, n = (len + g_page - 1) / g_page;
    for (size_t i = 0; i < n; i++) out[i] = first + i < MAX ? bit[first + i] : 0;
    return 0;
  }
};
// P pages, every offset, page size and residency; failing queries.
template <int P, int sh> static inline void pages() {
  g_page = size_t(1) << sh;
  g_failed = 0;
  uint64_t base = v::range("page", 0, 1ull << 44) << sh;
  uint64_t off = v::range("offset", 0, (1u << sh) - 1), tail = v::range("tail", 0, (1u << sh) - 1);
  V_ASSUME(off + tail < P * g_page);
  uint64_t size = P * g_page - off - tail;
  g_lo = base, g_hi = base + P * g_page;
  Fake<P> m;
  for (auto& b : m.bit) b = v::any<uint8_t>("bits");
  m.fail_at = v::any_bool("fails") ? 0 : -1;
  size_t got = MInCoreTest::residence(base + off, size, &m);
  uint64_t want = 0;
  for (int i = 0; i < P; i++) {
    uint64_t bytes = g_page - (i == 0 ? off : 0) - (i == P - 1 ? tail : 0);
    want += m.bit[i] & 1 ? bytes : 0;
  }
  V_ASSERT(got == (g_failed ? 0 : want), "exactly the resident bytes of the range, 0 if the system cannot answer");
  V_COVER(got != 0, "some bytes resident");
}
V_HARNESS(pages_1_12) { pages<1, 12>(); }
V_HARNESS(pages_2_12) { pages<2, 12>(); }
V_HARNESS(pages_3_12) { pages<3, 12>(); }
V_HARNESS(pages_4_12) { pages<4, 12>(); }
V_HARNESS(pages_1_16) { pages<1, 16>(); }
V_HARNESS(pages_3_16) { pages<3, 16>(); }
V_HARNESS(pages_2_14) { pages<2, 14>(); }
V_HARNESS(nothing) {
  g_page = 4096;
  Fake<1> m;
  g_lo = g_hi = 0;
  V_ASSERT(MInCoreTest::residence(v::any<uint64_t>("addr"), 0, &m) == 0, "an empty range has no resident bytes");
}
// Page counts that need several queries.
template <size_t P, int OFF, int TAIL, int FAIL = -1> static inline void chunks() {
  g_page = 4096;
  g_failed = 0;
  g_lo = 0x7f0000000000, g_hi = g_lo + P * g_page;
  static Fake<P> m;
  m.calls = 0;
  for (size_t i = 0; i < P; i++) m.bit[i] = static_cast<uint8_t>((i * 2654435761u) >> 13);
  for (size_t c : {size_t(0), K - 2, K - 1, K, K + 1, 2 * K, P - 2, P - 1})
    if (c < P) m.bit[c] = v::any<uint8_t>("bits");
  m.fail_at = FAIL;
  size_t got = MInCoreTest::residence(g_lo + OFF, P * g_page - OFF - TAIL, &m);
  uint64_t want = 0;
  for (size_t i = 0; i < P; i++) want += m.bit[i] & 1 ? g_page - (i == 0 ? OFF : 0) - (i == P - 1 ? TAIL : 0) : 0;
  V_ASSERT(got == (g_failed ? 0 : want), "exactly the resident bytes of a range of several queries, 0 if one fails");
}
V_HARNESS(pages_chunk_plus) { chunks<K + 1, 4095, 1>(); }
V_HARNESS(pages_chunk_plus2) { chunks<K + 2, 17, 0>(); }
V_HARNESS(pages_chunk_fails) { chunks<K + 2, 0, 0, 1>(); }
#if V_THOROUGH
V_HARNESS(pages_chunk) { chunks<K, 0, 0>(); }
V_HARNESS(pages_chunk_minus) { chunks<K - 1, 1, 4095>(); }
V_HARNESS(pages_2chunk) { chunks<2 * K, 5, 4000>(); }
V_HARNESS(pages_2chunk_plus) { chunks<2 * K + 1, 0, 4095>(); }
V_HARNESS(pages_3chunk_plus) { chunks<3 * K + 1, 0, 4095>(); }
V_HARNESS(pages_8) { pages<8, 12>(); }
#endif
#else
// Any number of pages.
struct Any final : MInCoreInterface {
  int mincore(void* addr, size_t len, unsigned char* out) override {
    uint64_t a = reinterpret_cast<uint64_t>(addr);
    V_ASSERT((a & (g_page - 1)) == 0 && (len & (g_page - 1)) == 0 && len != 0, "queries cover whole pages");
    V_ASSERT(a >= g_lo && len <= g_hi - a, "nothing outside the pages of the range is queried");
    V_ASSERT(len / g_page <= K, "an answer fits the buffer");
    if (v::any_bool("fails")) {
      vinv::mc_failed = 1;
      return -1;
    }
    __v_havoc(out, K, "residency");
    vinv::mc_call_base = a;
    vinv::mc_call_len = len;
    V_ASSUME((out[0] & 1) == vinv::mc_resident(a));  // instance of the contract for the first page
    return 0;
  }
};
V_HARNESS(inv_any) {
  g_page = vinv::mc_page = 4096;
  vinv::mc_failed = 0;
  uint64_t n = v::range("pages", 2, 1ull << 36);
  uint64_t base = v::range("page", 0, 1ull << 36) << 12;
  uint64_t off = v::range("offset", 0, 4095), tail = v::range("tail", 0, 4095);
  g_lo = base, g_hi = base + n * g_page;
  uint64_t last = g_hi - g_page;
  vinv::mc_first = g_lo;
  vinv::mc_first_bytes = vinv::mc_resident(g_lo) ? g_page - off : 0;
  V_ASSUME(vinv::mc_sum(g_lo + g_page) == 0);
  Any m;
  size_t got = MInCoreTest::residence(base + off, n * g_page - off - tail, &m);
  uint64_t want = vinv::mc_first_bytes + vinv::mc_sum(last) * g_page + (vinv::mc_resident(last) ? g_page - tail : 0);
  V_ASSERT(got == (vinv::mc_failed ? 0 : want), "exactly the resident bytes of a range of any length, 0 if a query fails");
}
#endif
