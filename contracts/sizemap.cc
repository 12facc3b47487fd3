//@ property: C01
//@ repo: tcmalloc/sizemap.cc tcmalloc/size_classes.cc tcmalloc/legacy_size_classes.cc tcmalloc/reuse_relaxed_below_64_size_classes.cc tcmalloc/experimental_pow2_size_class.cc
//@ variant: default:
//@ variant: small:-DTCMALLOC_INTERNAL_SMALL_BUT_SLOW
//@ variant: large:-DTCMALLOC_INTERNAL_256K_PAGES
//@ variant: large8!:-DTCMALLOC_INTERNAL_256K_PAGES -fnew-alignment=8
//@ variant: medium!:-DTCMALLOC_INTERNAL_32K_PAGES
//@ variant: default8!:-fnew-alignment=8
//@ variant: medium8!:-DTCMALLOC_INTERNAL_32K_PAGES -fnew-alignment=8
//@ variant: small8!:-DTCMALLOC_INTERNAL_SMALL_BUT_SLOW -fnew-alignment=8
//@ variant: numa!:-DTCMALLOC_INTERNAL_NUMA_AWARE
//@ opt: .* unroll=400000
//@ assume: Parameters::heap_partitioning_mode() and Static::size_class_configuration() are environment inputs, ranged over here (every shipped table, every mode)
//@ assume: TC_LOG diagnostics have no effect on the allocator's state
#include "v.h"
#include "tcmalloc/sizemap.h"
#include "tcmalloc/huge_page_aware_allocator.h"
#include "tcmalloc/tcmalloc_policy.h"
using namespace tcmalloc::tcmalloc_internal;

static int g_mode, g_table;
namespace tcmalloc::tcmalloc_internal {
HeapPartitioningMode Parameters::heap_partitioning_mode() { return static_cast<HeapPartitioningMode>(g_mode); }
SizeClassConfiguration Static::size_class_configuration() { return static_cast<SizeClassConfiguration>(g_table); }
SizeMap Static::sizemap_;
}
struct TestMap : SizeMap {
  using SizeMap::ValidSizeClasses;
};
static TestMap sm;
enum { kOff = (int)HeapPartitioningMode::kOff, kFull = (int)HeapPartitioningMode::kFull, kLight = (int)HeapPartitioningMode::kLight };
enum { kPow2 = (int)SizeClassConfiguration::kPow2Only, kLegacy = (int)SizeClassConfiguration::kLegacy,
       kReuse = (int)SizeClassConfiguration::kReuse, kRelaxed = (int)SizeClassConfiguration::kReuseRelaxedBelow64 };

template <typename Oom, typename Align, typename Access>
using P = TCMallocPolicy<Oom, Align, Access, InvokeHooksPolicy, NonSizeReturningPolicy, FixedNumaPartitionPolicy, SecurityPartitionPolicy>;
static constexpr bool kSec = kSecurityPartitions > 1;

// The copy of the size classes an allocation is to come from.
static inline size_t group(bool is_new, bool cold, size_t p) {
  if (cold) return kSec && g_mode == kFull && p == 1 ? 1 : kNormalPartitions;
  if (!kSec) return p;                       // NUMA node
  if (g_mode == kOff) return 0;
  if (g_mode == kFull) return p;
  return is_new ? 1 : p;
}
// Every size s in [0, kMaxSize], one interval of sizes between two classes of
// the group at a time: the class found is the smallest of the group with room
// and alignment.
template <typename Pol>
static inline void lookup(Pol pol, size_t align, bool is_new, bool cold, size_t p, size_t relaxed = 1) {
  size_t b = group(is_new, cold, p) * kNumBaseClasses;
  size_t prev = 0;
  size_t z = sm.GetSizeClass(pol, 0).size_class;
  V_ASSERT(sm.GetSizeClass(pol, 0).is_small, "an empty request is served by a class");
  if (align > 1) V_ASSERT(sm.class_to_size(z) % align == 0, "an empty request gets the alignment");
  for (size_t c = 1; c < kNumBaseClasses; c++) {
    size_t d = sm.class_to_size(b + c);
    if (d == 0) break;
    size_t want = c;
    while (sm.class_to_size(b + want) % align != 0) want++;
    size_t s = prev + 1 + v::range("s", 0, d - prev - 1);
    auto r = sm.GetSizeClass(pol, s);
    V_ASSERT(r.is_small, "sizes up to the largest class are served by a class");
    // malloc() may, but need not, give requests below the fundamental
    // alignment that alignment.
    size_t also = c;
    while (relaxed > 1 && sm.class_to_size(b + also) % relaxed != 0) also++;
    V_ASSERT((r.size_class == b + want) | (relaxed > 1 && r.size_class == b + also),
             "the class is the tightest of the partition with room and alignment");
    if (align == 1) {
      V_ASSERT(sm.SizeClass(pol, s) == r.size_class, "SizeClass agrees");
      V_ASSERT(d % 8 == 0 && (d < 16 || d % static_cast<size_t>(kAlignment) == 0), "the class has the fundamental alignment");
      auto rg = sm.class_to_size_range(b + c);
      V_ASSERT(rg.first <= s && s <= rg.second && rg.second == d, "range of the class");
    }
    prev = d;
  }
  V_ASSERT(prev == kMaxSize, "the classes of the partition reach the largest size");
  size_t big = v::any<size_t>("big");
  V_ASSUME(big > kMaxSize);
  V_ASSERT(!sm.GetSizeClass(pol, big).is_small, "larger requests are not mapped to a class");
}
template <typename Pol>
static inline void too_aligned(Pol pol) {
  V_ASSERT(!sm.GetSizeClass(pol, v::any<size_t>("s")).is_small, "alignments beyond a page are not mapped to a class");
}
template <typename Oom, typename Access>
static inline void aligned(size_t p, bool is_new, bool cold) {
  FixedNumaPartitionPolicy n(kSec || cold ? 0 : p);
  SecurityPartitionPolicy q(kSec ? p : 0);
  for (size_t a = 1; a <= kPageSize; a *= 2)
    lookup(P<Oom, AlignAsPolicy, Access>(AlignAsPolicy(a), n, q), a, is_new, cold, p);
  unsigned sh = kPageShift + 1 + v::range("sh", 0, 62 - kPageShift);
  too_aligned(P<Oom, AlignAsPolicy, Access>(AlignAsPolicy(size_t{1} << sh), n, q));
}
template <typename Access>
static inline void partition(size_t p, bool cold) {
  FixedNumaPartitionPolicy n(kSec || cold ? 0 : p);
  SecurityPartitionPolicy q(kSec ? p : 0);
  lookup(P<CppOomPolicy, DefaultAlignPolicy, Access>(DefaultAlignPolicy(), n, q), 1, true, cold, p);
  aligned<CppOomPolicy, Access>(p, true, cold);
}
static inline void partition_malloc(size_t p) {
  FixedNumaPartitionPolicy n(kSec ? 0 : p);
  SecurityPartitionPolicy q(kSec ? p : 0);
  using H = AllocationAccessHotPolicy;
  lookup(P<MallocOomPolicy, MallocAlignPolicy, H>(MallocAlignPolicy(), n, q), 1, false, false, p, alignof(std::max_align_t));
  aligned<MallocOomPolicy, H>(p, false, false);
}
static inline void table(int t, int mode) {
  g_mode = mode;
  g_table = t;
  // The map is reusable: whatever it held before, Init determines it.
  bool ok = sm.Init(SizeMap::CurrentClasses().classes);
  V_ASSERT(ok, "a shipped table is accepted");
  V_ASSERT(SizeMap::CurrentClasses().assumptions.has_expanded_classes == kHasExpandedClasses, "the table is for this configuration");
  V_ASSERT(SizeMap::CurrentClasses().assumptions.large_size == SizeMap::kLargeSize, "the table is for this granularity");
  V_ASSERT(SizeMap::CurrentClasses().assumptions.large_size_alignment == SizeMap::kLargeSizeAlignment, "the table is for this granularity");
  constexpr size_t kParts = kNormalPartitions;
  for (size_t p = 0; p < kParts; p++) {
    partition<AllocationAccessHotPolicy>(p, false);
    partition_malloc(p);
    if (kHasExpandedClasses && (kSec || p == 0)) partition<AllocationAccessColdPolicy>(p, true);
  }
  // Every copy of the classes is the table.
  auto cl = SizeMap::CurrentClasses().classes;
  for (size_t g = 0; g < kNumClasses / kNumBaseClasses; g++)
    for (size_t c = 1; c < kNumBaseClasses; c++) {
      size_t k = g * kNumBaseClasses + c;
      size_t size = sm.class_to_size(k), pages = sm.class_to_pages(k).raw_num(), move = sm.num_objects_to_move(k);
      if (c >= cl.size()) {
        V_ASSERT(size == 0 && pages == 0 && move == 0, "classes beyond the table are unused");
        continue;
      }
      V_ASSERT(size == cl[c].size, "class size is the table's");
      V_ASSERT(pages >= 1 && pages <= 32 && pages * kPageSize >= size, "a span holds an object");
      V_ASSERT(move >= 2 && move <= kMaxObjectsToMove, "batch size");
    }
  // The cold classes are listed exactly.
  auto cold = sm.ColdSizeClasses();
  V_ASSERT(cold.size() == (kHasExpandedClasses ? cl.size() - 1 : 0), "number of cold classes");
  for (size_t i = 0; i < cold.size(); i++) V_ASSERT(cold[i] == kExpandedClassesStart + 1 + i, "cold classes");
}
V_HARNESS(reuse_full) { table(kReuse, kFull); }
V_HARNESS(pow2_full) { table(kPow2, kFull); }
V_HARNESS(reuse_light) { table(kReuse, kLight); }
#if defined(V_THOROUGH) || TCMALLOC_PAGE_SHIFT <= 13
V_HARNESS(legacy_full) { table(kLegacy, kFull); }
V_HARNESS(relaxed_full) { table(kRelaxed, kFull); }
V_HARNESS(reuse_off) { table(kReuse, kOff); }
#endif
#ifdef V_THOROUGH
V_HARNESS(pow2_off) { table(kPow2, kOff); }
V_HARNESS(pow2_light) { table(kPow2, kLight); }
V_HARNESS(legacy_off) { table(kLegacy, kOff); }
V_HARNESS(legacy_light) { table(kLegacy, kLight); }
V_HARNESS(relaxed_off) { table(kRelaxed, kOff); }
V_HARNESS(relaxed_light) { table(kRelaxed, kLight); }
#endif

// What a table may contain, for arbitrary entries.
V_HARNESS(valid_class) {
  size_t size = v::any<size_t>("size"), pages = v::any<size_t>("pages"), move = v::any<size_t>("move");
  V_ASSUME(pages < (size_t{1} << 40));
  bool ok = SizeMap::IsValidSizeClass(size, Length(pages), move);
  if (!ok) return;
  V_ASSERT(size > 0 && size <= kMaxSize, "class size");
  V_ASSERT(size % (size > SizeMap::kLargeSize ? SizeMap::kLargeSizeAlignment : static_cast<size_t>(kAlignment)) == 0, "class size granularity");
  V_ASSERT(pages > 0 && pages <= 32, "class pages");
  V_ASSERT(pages * kPageSize >= size, "an object fits the span");
  V_ASSERT(move >= 2 && move <= kMaxObjectsToMove, "batch");
}
