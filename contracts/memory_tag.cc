//@ property: C16
//@ repo: tcmalloc/internal/memory_tag.cc
//@ variant: default:
//@ variant: numa:-DTCMALLOC_INTERNAL_NUMA_AWARE
//@ variant: small:-DTCMALLOC_INTERNAL_SMALL_BUT_SLOW
//@ variant: large!:-DTCMALLOC_INTERNAL_256K_PAGES
// C16: tags and partitions from addresses, and back.
#include "v.h"
#include <initializer_list>
#include "tcmalloc/common.h"
#include "tcmalloc/internal/memory_tag.h"
using namespace tcmalloc::tcmalloc_internal;

static constexpr MemoryTag kTags[] = {MemoryTag::kSampled, MemoryTag::kSampledP1, MemoryTag::kNormalP0, MemoryTag::kNormalP1, MemoryTag::kCold, MemoryTag::kMetadata};
// Any address of memory with a tag: the bits of the tag, anything else.
static inline void* address(MemoryTag t) {
  uintptr_t a = v::any<uintptr_t>("address");
  V_ASSUME((a & kTagMask) == static_cast<uintptr_t>(t) << kTagShift);
  return reinterpret_cast<void*>(a);
}
V_HARNESS(tag_of_address) {
  for (MemoryTag t : kTags) V_ASSERT(GetMemoryTag(address(t)) == t, "the tag of an address is the one it was allocated under");
}
V_HARNESS(tags_distinct) {
  for (MemoryTag t : kTags) {
    V_ASSERT((static_cast<uintptr_t>(t) << kTagShift & ~kTagMask) == 0, "a tag fits the tag bits");
    for (MemoryTag u : kTags)
      if (t != u) V_ASSERT(((static_cast<uintptr_t>(t) ^ static_cast<uintptr_t>(u)) << kTagShift & kTagMask) != 0, "distinct tags never share an address");
  }
  V_ASSERT(MemoryTag::kNormal == MemoryTag::kNormalP0, "normal memory is that of partition 0");
  for (int i = 0; i < 6; i++)
    for (int j = 0; j < i; j++) V_ASSERT(kTags[i] != kTags[j], "tags are distinct");
}
V_HARNESS(kinds) {
  for (MemoryTag t : kTags) {
    if (t == MemoryTag::kMetadata) continue;  // never asked
    void* p = address(t);
    V_ASSERT(IsNormalMemory(p) == (t == MemoryTag::kNormalP0 || t == MemoryTag::kNormalP1), "normal memory is recognised");
    V_ASSERT(IsSampledMemory(p) == (t == MemoryTag::kSampled || t == MemoryTag::kSampledP1), "sampled memory is recognised");
  }
}
V_HARNESS(partitions) {
  for (size_t i = 0; i < kNormalPartitions; i++) {
    MemoryTag t = MultiNormalTag(i);
    V_ASSERT(t == MemoryTag::kNormalP0 || t == MemoryTag::kNormalP1, "partitions are normal memory");
    V_ASSERT(PartitionFromPointer(address(t)) == i, "the partition of an address is the one it was allocated under");
    V_ASSERT(PartitionFromPointerFast(address(t)) == i, "the partition of an address is the one it was allocated under (fast)");
  }
  for (MemoryTag t : kTags)
    if (t != MemoryTag::kNormalP1) V_ASSERT(PartitionFromPointer(address(t)) == 0, "anything else is in partition 0");
}
// Every byte of an allocation shorter than the memory of one tag.
V_HARNESS(every_byte) {
  for (MemoryTag t : kTags) {
    void* p = address(t);
    uintptr_t a = reinterpret_cast<uintptr_t>(p), n = v::any<size_t>("size"), i = v::any<size_t>("i");
    V_ASSUME(n <= (uintptr_t{1} << kTagShift) - (a & ((uintptr_t{1} << kTagShift) - 1)) && i < n);
    V_ASSERT(GetMemoryTag(reinterpret_cast<void*>(a + i)) == t, "every byte has the tag");
  }
}
V_HARNESS(labels) {
  for (MemoryTag t : kTags)
    for (MemoryTag u : kTags) {
      absl::string_view a = MemoryTagToLabel(t), b = MemoryTagToLabel(u);
      bool same = a.size() == b.size();
      for (size_t i = 0; i < a.size() && i < b.size(); i++) same = same && a[i] == b[i];
      V_ASSERT(same == (t == u), "labels tell tags apart");
    }
}
// The size classes: a block for each partition, then the expanded ones.
V_HARNESS(classes) {
  unsigned c = v::range("class", 0, kNumClasses - 1);
  V_ASSERT(IsExpandedSizeClass(c) == (kHasExpandedClasses && c >= kNormalPartitions * kNumBaseClasses), "the expanded classes are those after the partitions");
  if (!IsExpandedSizeClass(c)) V_ASSERT(c / kNumBaseClasses < kNormalPartitions, "any other class belongs to a partition");
  V_ASSERT(ColdFeatureActive() == kHasExpandedClasses, "cold memory is for expanded classes");
}
