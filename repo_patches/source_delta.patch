From 4055d9e285990cbb5b97cf06c4a29b2cb0ea7b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:07 +0000
Subject: [PATCH 01/14] Loop invariant hooks for RangeTracker (no-op unless
 verifying)

---
 tcmalloc/internal/loop_invariant.h | 31 ++++++++++++++++++++++++++++++
 tcmalloc/internal/range_tracker.h  | 10 ++++++++--
 2 files changed, 39 insertions(+), 2 deletions(-)
 create mode 100644 tcmalloc/internal/loop_invariant.h

diff --git a/tcmalloc/internal/loop_invariant.h b/tcmalloc/internal/loop_invariant.h
new file mode 100644
index 0000000..dce0c50
--- /dev/null
+++ b/tcmalloc/internal/loop_invariant.h
@@ -0,0 +1,31 @@
+// Copyright 2024 The TCMalloc Authors
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     https://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+#ifndef TCMALLOC_INTERNAL_LOOP_INVARIANT_H_
+#define TCMALLOC_INTERNAL_LOOP_INVARIANT_H_
+
+// TCMALLOC_LOOP_INVARIANT(name, args...) names the invariant of the loop whose
+// condition it begins, over the given variables:
+//
+//   while (TCMALLOC_LOOP_INVARIANT(foo, i, n) && i < n) ...
+//
+// It expands to `true` except when a verifier defines TCMALLOC_INTERNAL_VERIFY
+// and supplies tcmalloc_invariants.h.
+#ifdef TCMALLOC_INTERNAL_VERIFY
+#include "tcmalloc_invariants.h"
+#else
+#define TCMALLOC_LOOP_INVARIANT(name, ...) true
+#endif
+
+#endif  // TCMALLOC_INTERNAL_LOOP_INVARIANT_H_
diff --git a/tcmalloc/internal/range_tracker.h b/tcmalloc/internal/range_tracker.h
index 9144e53..6c192c1 100644
--- a/tcmalloc/internal/range_tracker.h
+++ b/tcmalloc/internal/range_tracker.h
@@ -26,6 +26,7 @@
 #include "absl/numeric/bits.h"
 #include "tcmalloc/internal/config.h"
 #include "tcmalloc/internal/logging.h"
+#include "tcmalloc/internal/loop_invariant.h"
 #include "tcmalloc/internal/optimization.h"
 
 GOOGLE_MALLOC_SECTION_BEGIN
@@ -245,7 +246,10 @@ inline size_t RangeTracker<N>::FindAndMark(size_t n) {
   // Iterate over free ranges:
   size_t index = 0, len;
 
-  while (bits_.NextFreeRange(index, &index, &len)) {
+  while (TCMALLOC_LOOP_INVARIANT(range_tracker_find, bits_, n, index,
+                                 longest_len, second_len, best_index,
+                                 best_len) &&
+         bits_.NextFreeRange(index, &index, &len)) {
     if (len > longest_len) {
       second_len = longest_len;
       longest_len = len;
@@ -289,7 +293,9 @@ inline void RangeTracker<N>::Mark(size_t index, size_t n) {
 
   // We just marked a range as used. This might change the longest free range
   // recorded in longest_free_. Recompute.
-  while (bits_.NextFreeRange(scan_index, &scan_index, &scan_len)) {
+  while (TCMALLOC_LOOP_INVARIANT(range_tracker_mark, bits_, scan_index,
+                                 longest_len) &&
+         bits_.NextFreeRange(scan_index, &scan_index, &scan_len)) {
     if (scan_len > longest_len) {
       longest_len = scan_len;
     }
-- 
2.43.0


From 0fc5eb8dce476c953661b89f955f0c1dc73afd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:59 +0000
Subject: [PATCH 02/14] fix: Cycles32::AsDuration reports a whole epoch within
 the sentinel tick

Update() stores 1 for the tick whose low 32 bits are 0, but AsDuration()
subtracted it from the raw tick, so a query within that tick yielded
2^32 - 1 elapsed ticks (weeks) instead of none.
---
 tcmalloc/internal/clock.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/internal/clock.h b/tcmalloc/internal/clock.h
index bf3dffb..d432713 100644
--- a/tcmalloc/internal/clock.h
+++ b/tcmalloc/internal/clock.h
@@ -79,7 +79,10 @@ class Cycles32 {
   absl::Duration AsDuration(Clock::Snapshot snap) const {
     const uint32_t last = val_.load(std::memory_order_relaxed);
     if (last == 0) return absl::InfiniteDuration();
-    const uint32_t now_32 = static_cast<uint32_t>(snap.now >> kShift);
+    uint32_t now_32 = static_cast<uint32_t>(snap.now >> kShift);
+    // Update() records tick 0 as 1.  Match it here, so that no time has elapsed
+    // within that tick (rather than a whole epoch).
+    if (now_32 == 0) now_32 = 1;
     // Unsigned 32-bit modular subtraction across wraparound is safe.
     const uint32_t elapsed_ticks = now_32 - last;
     const double elapsed_cycles =
-- 
2.43.0


From b55ba573d7aa63fd218d6692149ba17a0db25beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 03/14] Loop invariant hook for MInCore (no-op unless
 verifying)

---
 tcmalloc/internal/mincore.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/internal/mincore.cc b/tcmalloc/internal/mincore.cc
index 2e66a88..4dd3ba5 100644
--- a/tcmalloc/internal/mincore.cc
+++ b/tcmalloc/internal/mincore.cc
@@ -23,6 +23,7 @@
 
 #include "absl/base/optimization.h"
 #include "tcmalloc/internal/config.h"
+#include "tcmalloc/internal/loop_invariant.h"
 #include "tcmalloc/internal/page_size.h"
 
 GOOGLE_MALLOC_SECTION_BEGIN
@@ -101,7 +102,9 @@ size_t MInCore::residence_impl(void* addr, size_t size,
   int resIndex = 1;
 
   // Handle all pages but the last page.
-  while (remainingPages > kHardwarePageSize) {
+  while (TCMALLOC_LOOP_INVARIANT(mincore_pages, basePage, remainingPages,
+                                 endPage, totalResident, resIndex, res) &&
+         remainingPages > kHardwarePageSize) {
     if ((res[resIndex] & 1) == 1) {
       totalResident += kHardwarePageSize;
     }
-- 
2.43.0


From fad9c0d581daaa6c7e2b73824430597047a09253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 04/14] fix: PageMap: clearing a page's size class leaves the
 redundant copy stale

clear_sizeclass() zeroed only the size class array, so until the page was next
stored sizeclass() tripped its own consistency assertion and
GetDescriptorAndSizeClass() went on returning the class of the dead span.
---
 tcmalloc/pagemap.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/pagemap.h b/tcmalloc/pagemap.h
index b895839..acf8939 100644
--- a/tcmalloc/pagemap.h
+++ b/tcmalloc/pagemap.h
@@ -263,7 +263,10 @@ class PageMap3 {
     const Number i1 = k >> (kLeafBits + kMidBits);
     const Number i2 = (k >> kLeafBits) & (kMidLength - 1);
     const Number i3 = k & (kLeafLength - 1);
-    root_[i1]->leafs[i2]->sizeclass[i3] = 0;
+    Leaf* leaf = root_[i1]->leafs[i2];
+    leaf->sizeclass[i3] = 0;
+    // Keep the redundant copy in sync.
+    leaf->span_and_sizeclass[i3].set(leaf->span(i3), 0);
   }
 
   void* get_hugepage(Number k) {
-- 
2.43.0


From 3ed5cd847c5b99e496875fdd505733ddf01d11d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 05/14] fix: pvalloc: rounding a huge size up to a page wrapped
 around to a tiny block

---
 tcmalloc/tcmalloc.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index eb9c496..7423e2a 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -1859,6 +1859,11 @@ extern "C" ABSL_CACHELINE_ALIGNED void* TCMallocInternalPvalloc(
   if (size == 0) {     // pvalloc(0) should allocate one page, according to
     size = page_size;  // http://man.free4web.biz/man3/libmpatrol.3.html
   }
+  if (ABSL_PREDICT_FALSE(size >
+                         std::numeric_limits<size_t>::max() - page_size + 1)) {
+    // Rounding up would wrap around to a tiny allocation.
+    return MallocPolicy::handle_oom(size);
+  }
   size = (size + page_size - 1) & ~(page_size - 1);
   return fast_alloc(size, MallocPolicy().AlignAs(page_size));
 }
-- 
2.43.0


From 45846bc4ccb743d64c1ce302c51526780f273405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:01 +0000
Subject: [PATCH 06/14] fix: Printer::Append left the text without its
 terminator

---
 tcmalloc/internal/logging.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/internal/logging.h b/tcmalloc/internal/logging.h
index d979cb8..fa82f2a 100644
--- a/tcmalloc/internal/logging.h
+++ b/tcmalloc/internal/logging.h
@@ -293,7 +293,8 @@ class Printer {
     for (const absl::string_view piece : pieces) total_size += piece.size();
 
     required_ += total_size;
-    if (left_ < total_size) {
+    // Leave room for the terminator.
+    if (left_ <= total_size) {
       left_ = 0;
       return;
     }
@@ -307,6 +308,7 @@ class Printer {
       memcpy(buf_, piece.data(), this_size);
       buf_ += this_size;
     }
+    *buf_ = '\0';
 
     left_ -= total_size;
   }
-- 
2.43.0


From ca541cf07d0bf77bea666c2a24462b46598f89fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:27 +0000
Subject: [PATCH 07/14] fix: pvalloc: the alloc-token variants wrapped around
 for huge sizes too

---
 tcmalloc/tcmalloc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index 7423e2a..f8fdb40 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -2180,6 +2180,10 @@ ABSL_CACHELINE_ALIGNED void* operator new[](size_t size, std::align_val_t align,
     if (size == 0) {                                                           \
       size = page_size;                                                        \
     }                                                                          \
+    if (ABSL_PREDICT_FALSE(size > std::numeric_limits<size_t>::max() -         \
+                                      page_size + 1)) {                        \
+      return MallocPolicy::handle_oom(size);                                   \
+    }                                                                          \
     size = (size + page_size - 1) & ~(page_size - 1);                          \
     return fast_alloc(                                                         \
         size,                                                                  \
-- 
2.43.0


From b4ffb57a1f65902f62ad55d3fbeaa2198c465152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:27 +0000
Subject: [PATCH 08/14] fix: realloc kept an overaligned page allocation for a
 size that has a size class, so that sized deallocation freed it to the wrong
 place

---
 tcmalloc/tcmalloc.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index f8fdb40..d3d08b0 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -1599,7 +1599,12 @@ static inline ABSL_ATTRIBUTE_ALWAYS_INLINE void* do_realloc(void* old_ptr,
     } else {
       actual_new_size = BytesToLengthCeil(new_size).in_bytes();
     }
-    changes_correct_size = actual_new_size != old_size;
+    // An overaligned allocation may own whole pages even though its size has a
+    // size class: sized deallocation needs it to move to that class.
+    const bool was_small =
+        tc_globals.pagemap().sizeclass(
+            tcmalloc::tcmalloc_internal::PageIdContainingTagged(old_ptr)) != 0;
+    changes_correct_size = actual_new_size != old_size || is_small != was_small;
   }
 
   if (changes_correct_size || was_sampled || will_sample ||
-- 
2.43.0


From dd3b7b2c87883d034879f9a4f783ce8be198b6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:54 +0000
Subject: [PATCH 09/14] Loop invariant hook for SystemAllocator (no-op unless
 verifying)

---
 tcmalloc/internal/system_allocator.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/internal/system_allocator.h b/tcmalloc/internal/system_allocator.h
index 3a44ee9..28d2153 100644
--- a/tcmalloc/internal/system_allocator.h
+++ b/tcmalloc/internal/system_allocator.h
@@ -27,6 +27,7 @@
 #include "absl/strings/string_view.h"
 #include "tcmalloc/internal/is_aligned_to.h"
 #include "tcmalloc/internal/logging.h"
+#include "tcmalloc/internal/loop_invariant.h"
 #ifdef __linux__
 #include <linux/mempolicy.h>
 #endif
@@ -569,7 +570,10 @@ void* SystemAllocator<Topology, NormalPartitions>::MmapAlignedLocked(
   // subsequent one succeeds.  If we fail to allocate memory, MallocOomPolicy
   // will set errno for us.
   ErrnoRestorer errno_restorer;
-  for (int i = 0; i < 1000; ++i) {
+  for (int i = 0;
+       TCMALLOC_LOOP_INVARIANT(mmap_aligned, next_addr, size, alignment, tag) &&
+       i < 1000;
+       ++i) {
     hint = reinterpret_cast<void*>(next_addr);
     TC_ASSERT_EQ(GetMemoryTag(hint), tag);
     int flags = MAP_PRIVATE | MAP_ANONYMOUS | map_fixed_noreplace_flag;
-- 
2.43.0


From 7c93a86931fc33e964c3efcb7e9d2acd69c45543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:16 +0000
Subject: [PATCH 10/14] fix: TimeSeriesTracker never advanced for epochs of 2^n
 ticks

epoch_ticks_m_ was 2^64 + 1 for them, which does not fit.
---
 tcmalloc/internal/timeseries_tracker.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/internal/timeseries_tracker.h b/tcmalloc/internal/timeseries_tracker.h
index fb30c11..1fa4884 100644
--- a/tcmalloc/internal/timeseries_tracker.h
+++ b/tcmalloc/internal/timeseries_tracker.h
@@ -56,7 +56,9 @@ class TimeSeriesTracker {
     // See comment in GetCurrentEpoch().
     auto d = static_cast<uint64_t>(absl::ToDoubleSeconds(epoch_length_) *
                                    clock.freq());
-    div_precision_ = 63 + absl::bit_width(d);
+    // The smallest power of two which is not less than d:  epoch_ticks_m_ would
+    // not fit for a d that is a power of two otherwise.
+    div_precision_ = 63 + absl::bit_width(d - 1);
     epoch_ticks_m_ =
         static_cast<uint64_t>(
             (static_cast<absl::uint128>(1) << div_precision_) / d) +
-- 
2.43.0


From ca7e5021d22b40718767af020208dcc098a0067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:31 +0000
Subject: [PATCH 11/14] Loop invariant hooks for ParseCpulist (no-op unless
 verifying)

---
 tcmalloc/internal/sysinfo.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tcmalloc/internal/sysinfo.cc b/tcmalloc/internal/sysinfo.cc
index 50252e8..1f01f92 100644
--- a/tcmalloc/internal/sysinfo.cc
+++ b/tcmalloc/internal/sysinfo.cc
@@ -29,6 +29,7 @@
 #include "absl/strings/string_view.h"
 #include "tcmalloc/internal/config.h"
 #include "tcmalloc/internal/cpu_utils.h"
+#include "tcmalloc/internal/loop_invariant.h"
 #include "tcmalloc/internal/util.h"
 
 GOOGLE_MALLOC_SECTION_BEGIN
@@ -49,7 +50,7 @@ std::optional<CpuSet> ParseCpulist(
   size_t carry_over = 0;
   int cpu_from = -1;
 
-  while (true) {
+  while (TCMALLOC_LOOP_INVARIANT(cpulist, set, buf, carry_over, cpu_from)) {
     const ssize_t rc = read(buf.data() + carry_over, buf.size() - carry_over);
     if (ABSL_PREDICT_FALSE(rc < 0)) {
       return std::nullopt;
@@ -87,7 +88,10 @@ std::optional<CpuSet> ParseCpulist(
         consumed = comma + 1;
       }
       if (cpu_from != -1) {
-        for (int c = cpu_from; c <= cpu; c++) {
+        for (int c = cpu_from;
+             TCMALLOC_LOOP_INVARIANT(cpulist_range, set, c, cpu_from, cpu) &&
+             c <= cpu;
+             c++) {
           set.Set(c);
         }
         cpu_from = -1;
-- 
2.43.0


From f3b9e50f95e473bfd49dbeb0ceb51a327a840206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:07 +0000
Subject: [PATCH 12/14] fix: ParseCpulist accepted malformed lists

A range without an end ("1-"), with two ("1-2-3") or running backwards
("3-1") and an entry split because it did not fit into the buffer were
not reported as errors.
---
 tcmalloc/internal/sysinfo.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tcmalloc/internal/sysinfo.cc b/tcmalloc/internal/sysinfo.cc
index 1f01f92..7eca1ce 100644
--- a/tcmalloc/internal/sysinfo.cc
+++ b/tcmalloc/internal/sysinfo.cc
@@ -52,7 +52,8 @@ std::optional<CpuSet> ParseCpulist(
 
   while (TCMALLOC_LOOP_INVARIANT(cpulist, set, buf, carry_over, cpu_from)) {
     const ssize_t rc = read(buf.data() + carry_over, buf.size() - carry_over);
-    if (ABSL_PREDICT_FALSE(rc < 0)) {
+    // An entry that does not fit into the buffer is not a CPU number.
+    if (ABSL_PREDICT_FALSE(rc < 0 || carry_over == buf.size())) {
       return std::nullopt;
     }
 
@@ -71,7 +72,8 @@ std::optional<CpuSet> ParseCpulist(
     const size_t dash = current.find('-');
     const size_t comma = current.find(',');
     if (dash != absl::string_view::npos && dash < comma) {
-      if (!absl::SimpleAtoi(current.substr(0, dash), &cpu_from) ||
+      if (cpu_from != -1 ||
+          !absl::SimpleAtoi(current.substr(0, dash), &cpu_from) ||
           !IsInBounds(cpu_from)) {
         return std::nullopt;
       }
@@ -79,7 +81,7 @@ std::optional<CpuSet> ParseCpulist(
     } else if (comma != absl::string_view::npos || rc == 0) {
       int cpu;
       if (!absl::SimpleAtoi(current.substr(0, comma), &cpu) ||
-          !IsInBounds(cpu)) {
+          !IsInBounds(cpu) || cpu < cpu_from) {
         return std::nullopt;
       }
       if (comma == absl::string_view::npos) {
@@ -106,6 +108,10 @@ std::optional<CpuSet> ParseCpulist(
     memmove(buf.data(), buf.data() + consumed, carry_over);
   }
 
+  // The last range lacks its end.
+  if (cpu_from != -1) {
+    return std::nullopt;
+  }
   return set;
 }
 
-- 
2.43.0


From acddb25e03b17852fff2684fb5857e6b19540833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:54 +0000
Subject: [PATCH 13/14] Loop invariant hook for NumPossibleCPUsNoCache (no-op
 unless verifying)

---
 tcmalloc/internal/sysinfo.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/internal/sysinfo.cc b/tcmalloc/internal/sysinfo.cc
index 7eca1ce..1f811a8 100644
--- a/tcmalloc/internal/sysinfo.cc
+++ b/tcmalloc/internal/sysinfo.cc
@@ -135,7 +135,9 @@ std::optional<int> NumPossibleCPUsNoCache() {
   }
 
   std::optional<int> max_so_far;
-  for (int i = 0; i < kMaxCpus; ++i) {
+  for (int i = 0;
+       TCMALLOC_LOOP_INVARIANT(cpu_max, *cpus, i, max_so_far) && i < kMaxCpus;
+       ++i) {
     if (cpus->IsSet(i)) {
       max_so_far = std::max(i, max_so_far.value_or(-1));
     }
-- 
2.43.0


From ea9b90c50f7ab2179537363b49d6d55f4e25f3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:01 +0000
Subject: [PATCH 14/14] Loop invariant hook for TransferCache::TryPlunder
 (no-op unless verifying)

---
 tcmalloc/transfer_cache_internals.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/transfer_cache_internals.h b/tcmalloc/transfer_cache_internals.h
index ade6ddd..555edfa 100644
--- a/tcmalloc/transfer_cache_internals.h
+++ b/tcmalloc/transfer_cache_internals.h
@@ -37,6 +37,7 @@
 #include "tcmalloc/internal/atomic_stats_counter.h"
 #include "tcmalloc/internal/config.h"
 #include "tcmalloc/internal/logging.h"
+#include "tcmalloc/internal/loop_invariant.h"
 #include "tcmalloc/parameters.h"
 #include "tcmalloc/transfer_cache_stats.h"
 
@@ -222,7 +223,7 @@ class TransferCache {
     // mark at the start of each plunder. If we plunder objects below, we record
     // the new value of info.used in the low water mark as we progress.
     low_water_mark_ = info.used;
-    while (true) {
+    while (TCMALLOC_LOOP_INVARIANT(transfer_cache_plunder, *this, to_return)) {
       info = GetSlotInfo();
       const int B = Manager::num_objects_to_move(size_class);
       const size_t num_to_move = std::min({B, info.used, to_return});
-- 
2.43.0

