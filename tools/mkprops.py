import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=[],obs=[],hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(zip(("name","meaning","where"),s)) for s in state],
      mechanism=[dict(zip(("name","where"),m)) for m in mech],observe_at=obs,hook_needed=hook)))
T="tcmalloc/"; I=T+"internal/"
p("C01","Size class lookup always yields room, alignment and the tightest class",
 "For every request size and power-of-two alignment that the small-object allocator accepts, the size class chosen holds at least the requested bytes, its size is a multiple of the requested alignment, and no smaller class of the same partition would have sufficed; requests it cannot serve are reported as such and never mapped to a wrong class. This holds for every shipped size-class table, for every heap partition, and the rounded size reported for a request is the size of that class.",
 ["inputs","configurations"],"all sizes 0..2^64-1, all alignments, all shipped tables, all partitions / access hints",
 "Tests sample sizes for the default table; an off-by-one in the index arithmetic shows only at bucket edges, for one alignment, or in a table a default build never loads.",
 [T+"sizemap.h",T+"sizemap.cc",T+"size_classes.cc",T+"legacy_size_classes.cc",T+"experimental_pow2_size_class.cc",T+"reuse_relaxed_below_64_size_classes.cc",T+"common.h"],
 [("SizeMap::GetSizeClass / ClassIndexMaybe",T+"sizemap.h"),("SizeMap::Init / SetSizeClasses / ValidSizeClasses",T+"sizemap.cc")],
 [("class_array_","size bucket -> class",T+"sizemap.h"),("class_to_size_","class -> bytes",T+"sizemap.h")],["size class and its size"])
p("C02","Page and hugepage conversions and range algebra are exact",
 "Converting between bytes, addresses, pages and hugepages rounds exactly as documented (floor, ceiling, containing) for every representable value, without overflow on representable results. Range predicates and operations (containment, intersection, ordering, join, split) agree with the set of pages or hugepages a range denotes, for every pair of ranges that does not wrap.",
 ["inputs"],"all addresses, lengths and ranges (64-bit)",
 "Tests use small hand-picked ranges; boundary rounding and near-limit lengths are not sampled.",
 [T+"pages.h",T+"huge_pages.h"],[("Length/PageId/Range operators",T+"pages.h"),("HugeLength/HugePage/HugeRange operators",T+"huge_pages.h")])
p("C03","Bitmaps behave exactly as sets of bit positions",
 "Every bitmap operation (set, clear and test a bit or a range, count, find next/previous set or clear bit, iterate free runs, bulk clear, pop a batch of low bits, copy/scale/or) gives the result and the final contents that the same operation on a mathematical set of positions gives, and changes no position outside its range. It holds for every contents, every index and length the operation accepts, and bitmap sizes with and without a partial last word.",
 ["inputs"],"all contents, positions and lengths, for several bitmap sizes",
 "Tests use particular patterns; a wrong mask shows only for particular word offsets or lengths crossing word boundaries.",
 [I+"range_tracker.h"],[("Bitmap<N>",I+"range_tracker.h")],[("bits_","the words",I+"range_tracker.h")])
p("C04","Free-range tracking never overlaps, is best-fit, and counts exactly",
 "Marking a run returns n contiguous positions that were all free, taken from a shortest adequate free run (first such), and marks exactly these; unmarking frees exactly the given positions. The tracker's counts of used positions, live allocations and the longest free run always equal the values computed from its contents.",
 ["inputs","histories"],"every reachable contents, every length; by induction every history",
 "Tests and fuzzing sample histories; a stale longest-free or a wrong tie-break needs a specific fragmentation.",
 [I+"range_tracker.h"],[("RangeTracker::FindAndMark/Mark/Unmark",I+"range_tracker.h")],[("longest_free_/nused_/nallocs_","derived counters",I+"range_tracker.h")])
p("C05","A hugepage tracker never double-allocates and accounts backing exactly",
 "Within one hugepage, page ranges handed out are disjoint from every live range and lie inside the hugepage, and returning a range frees exactly it. The count of pages returned to the OS always equals the number of pages recorded as unbacked, an allocation reports exactly the unbacked pages it reuses, and only free, still-backed pages are ever released (all of them when release succeeds, none recorded when it fails).",
 ["inputs","histories","fault_sequences"],"every tracker state, every request, release success and failure",
 "Tests drive a few histories with a mock; wrong accounting needs a particular mix of freed, released and live pages or a failing release.",
 [T+"huge_page_tracker.h"],[("PageTracker::Get/Put/ReleaseFree/MarkSubreleased",T+"huge_page_tracker.h")],[("free_, released_by_page_, released_count_","allocation and backing state",T+"huge_page_tracker.h")])
p("C06","A huge region never double-allocates and its backing accounting is exact",
 "Ranges handed out of a multi-hugepage region are disjoint from all live ranges, and the per-hugepage count of used pages, the number of backed hugepages and the free/unmapped totals always match what is allocated and what the OS was told. An allocation reports that it touches unbacked memory exactly when it does, and memory is released only for hugepages with no live page.",
 ["inputs","histories","fault_sequences"],"every region state, range position and length, release success and failure",
 "Tests sample allocations; boundary hugepages of a range and failed releases are rare.",
 [T+"huge_region.h"],[("HugeRegion::MaybeGet/Put/Inc/Dec/Release/UnbackHugepages",T+"huge_region.h")],[("tracker_, pages_used_, backed_, nbacked_","region state",T+"huge_region.h")])
p("C07","The page map returns exactly what was last stored for each page",
 "Looking up any page yields the span, size class and hugepage information last stored for it, and pages never stored (including those outside the supported address range) read as absent. Storing for one page never changes another, reserving a range makes every page of it storable or fails, and scanning for the next occupied page returns the next page in address order with a stored span.",
 ["inputs","histories","fault_sequences"],"all page numbers, all prior contents, metadata allocation failing or not",
 "Tests touch a few dense ranges; aliasing of index bits or boundary leaves needs particular page numbers.",
 [T+"pagemap.h",T+"pagemap.cc"],[("PageMap2/PageMap3",T+"pagemap.h")],[("root_, Leaf arrays","radix tree",T+"pagemap.h")])
p("C08","Object address and object index conversions in a span are inverse",
 "For every span position and every object size in use, converting an object's address to its index within the span and back gives the same address, distinct objects have distinct indices, and the multiplication used in place of a division gives the exact quotient for every object of the span. A span reports exactly the first page, page count and byte size it was created with.",
 ["inputs","configurations"],"all span addresses and lengths, all object sizes of all shipped tables, all objects",
 "The reciprocal is approximate; exactness for all sizes and offsets is an arithmetic fact tests sample only.",
 [T+"span.h",T+"span.cc"],[("Span::CalcReciprocal/OffsetToIdx/PtrToIdx/IdxToPtr",T+"span.h")],[("first_page_, num_pages_","packed location",T+"span.h")])
p("C09","Objects are neither lost nor duplicated by a span's free list",
 "Carving a span yields each object of the span exactly once, between the returned batch and the free list. Popping returns only objects that were free, each once, and pushing makes exactly the pushed objects free again; the live count equals objects out minus objects back, and a span is reported completely free exactly when the last live object comes back.",
 ["inputs","histories"],"every free-list state, every object size and batch",
 "Tests drain and refill whole spans; the bitmap/linked representations change over at specific fill levels and batch boundaries.",
 [T+"span.h",T+"span.cc"],[("Span::BuildFreelist/FreelistPopBatch/FreelistPushBatch",T+"span.cc")],[("allocated_, freelist_, cache_, bitmap_","free list",T+"span.h")])
p("C10","Intrusive lists keep exactly the elements inserted, in order",
 "Pushing, popping (single or batch), inserting, appending and removing elements of the intrusive lists leaves exactly the elements that a mathematical sequence would hold, in the same order, with the other elements untouched. An indexed family of lists finds an element in the first (or, scanning down, last) nonempty list at or beyond an index, and says empty exactly when all are.",
 ["inputs","histories"],"every list shape around the touched element, all indices",
 "Tests use a few short lists; a broken link or stale hint shows only for specific neighbours.",
 [I+"linked_list.h",T+"hinted_tracker_lists.h"],[("LinkedList, TList",I+"linked_list.h"),("HintedTrackerLists",T+"hinted_tracker_lists.h")])
p("C11","The address-range map keeps free ranges disjoint, merged and complete",
 "After any insertion or removal the map holds exactly the hugepages inserted and not removed, as disjoint ranges in address order with no two adjacent ones left unmerged. Its counts of ranges and of total hugepages and each subtree's longest-range summary are exact.",
 ["inputs","histories"],"every tree shape up to a stated size, every inserted range",
 "Tests insert random ranges and check totals; merging on both sides or stale summaries need specific trees.",
 [T+"huge_address_map.h",T+"huge_address_map.cc"],[("HugeAddressMap::Insert/Remove/Merge/FixLongest",T+"huge_address_map.cc")],[("root_, longest_","treap",T+"huge_address_map.h")])
p("C12","Hugepage cache and backing allocator conserve address space",
 "Every hugepage obtained from the system is at all times either handed out, cached, or free, never two of these: a range returned by a request has the requested length, was free or cached before, and is no longer. Sizes and usage counters equal the sums they stand for, and a release that fails keeps the memory accounted as cached.",
 ["inputs","histories","fault_sequences"],"every state within a stated shape bound, every request, OS failure or success",
 "Tests run typical histories; leftover handling and failed unbacking are corner cases.",
 [T+"huge_cache.h",T+"huge_cache.cc",T+"huge_allocator.h",T+"huge_allocator.cc"],[("HugeCache::DoGet/Release/ShrinkCache",T+"huge_cache.cc"),("HugeAllocator::Get/Release",T+"huge_allocator.cc")])
p("C13","The metadata arena hands out aligned, disjoint memory and counts it exactly",
 "Every block the arena returns is aligned as requested, lies in memory obtained from the system, and overlaps no block returned before. Allocated, unallocated and unavailable byte counts always add up to what was obtained from the system, and the block count is exact.",
 ["inputs","histories","fault_sequences"],"every arena state, size and alignment",
 "Tests check a few sizes; alignment padding near the end of a block is a corner case.",
 [T+"arena.h",T+"arena.cc"],[("Arena::Alloc",T+"arena.cc")],[("free_area_, free_avail_","current block",T+"arena.h")])
p("C14","The transfer cache conserves objects and respects its capacity",
 "Every object handed to the transfer cache is afterwards either in it or passed on to the backing list, exactly once, and every object returned was in one of them. Occupancy never exceeds the current capacity, capacity never exceeds its maximum, growing and shrinking change capacity by exactly one batch (or evict what no longer fits), and draining moves out exactly as many objects as have stayed unused since the last drain.",
 ["inputs","histories"],"every occupancy, capacity, batch size",
 "Tests use whole batches; partial batches and shrink-at-full are rare.",
 [T+"transfer_cache_internals.h"],[("TransferCache::InsertRange/RemoveRange/TryPlunder/GrowCache/ShrinkCache",T+"transfer_cache_internals.h")],[("slots_, slot_info_, low_water_mark_","occupancy and capacity",T+"transfer_cache_internals.h")])
p("C15","The central free list conserves objects and files spans correctly",
 "Objects returned are free objects of its spans, each once; objects inserted go back to their own span, spans with no live object leave for the page heap and no other span does. The free-object count, live-span count and utilisation histogram equal what the spans hold, and every partly used span is filed under the index for its number of live objects.",
 ["inputs","histories","configurations"],"every span population within a stated bound, every live count, all size classes",
 "Tests sample batches; stale filing or histogram entries need specific transitions.",
 [T+"central_freelist.h"],[("CentralFreeList::InsertRange/RemoveRange/Populate/ReleaseToSpans/IndexFor",T+"central_freelist.h")])
p("C16","Memory tags and heap partitions are recoverable from any address",
 "The tag and partition of every byte of an allocation computed from its address equal those it was allocated under, for every tag and address the system hands out. Tag, partition and size-class range conversions are mutually inverse and distinct tags never share an address.",
 ["inputs","configurations"],"all addresses, tags, partitions",
 "Tests check a few allocations; a wrong shift shows for particular address bits.",
 [I+"memory_tag.h",I+"memory_tag.cc",T+"common.h",I+"system_allocator.h"],[("GetMemoryTag / NormalPartition / PartitionFromPointer",I+"memory_tag.h")])
p("C17","Size arithmetic at the allocation API rejects every overflow",
 "A multiplied or rounded-up allocation size is used only if it equals the exact mathematical value; otherwise the request fails. Invalid alignments are rejected by aligned_alloc, posix_memalign and the size-returning aligned allocation, valid ones are honoured everywhere, and the capacity reported back to a size-returning allocation is at least the request.",
 ["inputs"],"all 64-bit sizes, counts and alignments",
 "Tests try a few huge values; intermediate overflow occurs for narrow ranges of operands.",
 [T+"tcmalloc.cc",T+"tcmalloc_policy.h",I+"overflow.h",T+"alloc_at_least.h",T+"alloc_at_least.cc",T+"pages.h"],[("MultiplyOverflow",I+"overflow.h"),("alloc_at_least",T+"alloc_at_least.cc")])
p("C18","Stack-trace filter counts never drift",
 "For every sequence of additions and removals of stack traces, a query answers with the exact net count of the live entries that share the queried trace's slots, so a trace that was added and not removed is always found. Decay removes entries oldest first, exactly the amount asked, and never makes the count of traces added since go wrong.",
 ["inputs","histories"],"every filter state, trace hash, amount",
 "Tests use a few traces; collisions and ring wrap-around need particular hashes and histories.",
 [I+"stacktrace_filter.h"],[("StackTraceFilter / DecayingStackTraceFilter",I+"stacktrace_filter.h")])
p("C19","Compact cycle clock keeps its ordering across wrap-around",
 "A compact timestamp taken from any cycle count is never mistaken for 'unset', loses at most its stated resolution, and the difference of two timestamps equals the true elapsed time in its unit whenever that fits. Ordering comparisons are consistent with elapsed time across counter wrap-around.",
 ["inputs"],"all 64-bit cycle counts and frequencies",
 "Wrap-around points are not reached by tests on a real clock.",
 [I+"clock.h"],[("Cycles32",I+"clock.h")])
p("C20","Residency counts exactly the resident bytes of the range",
 "For every address and size, the reported resident size equals the number of bytes of exactly that range lying on resident pages, including partial first and last pages and ranges of any number of pages. A range the system cannot answer for gives the documented failure result, and nothing outside the pages of the range is queried.",
 ["inputs","fault_sequences"],"all addresses, sizes, residency patterns and failures",
 "Tests use small aligned mappings; partial pages and ranges longer than one query need particular shapes.",
 [I+"mincore.h",I+"mincore.cc",I+"residency.h",I+"residency.cc"],[("MInCore::residence_impl",I+"mincore.cc")])
p("C21","Environment lookup returns the value of exactly the named variable",
 "Looking up a name returns the value of the first environment entry whose name equals it entirely, and nothing if there is none; names that are prefixes or extensions of an entry's name never match. No byte beyond a terminator is read, and the environment is not modified.",
 ["inputs","configurations"],"all environments and names (strings up to a stated length where unrolled)",
 "Tests look up a few names; prefix/extension and odd entries are not sampled.",
 [I+"environment.h",I+"environment.cc"],[("thread_safe_getenv",I+"environment.cc")])
p("C22","CPU lists parse to exactly the CPUs they denote",
 "Parsing a kernel-style CPU list yields exactly the set of CPUs it denotes regardless of how reads split the text, and rejects (or fails on) malformed or out-of-range input without touching anything else. The derived maximum CPU id is the largest member.",
 ["inputs","fault_sequences"],"all byte strings up to a stated length, all read splits and errors",
 "Tests and fuzzing use typical strings with one read.",
 [I+"sysinfo.h",I+"sysinfo.cc"],[("ParseCpulist / NumPossibleCPUs",I+"sysinfo.cc")])
p("C23","Hook lists deliver exactly the registered hooks",
 "A hook list contains exactly the hooks added and not removed, up to its capacity: adding succeeds iff there is room, removing succeeds iff present, and a traversal returns each registered hook once. The emptiness indication is exact and no operation disturbs the other hooks.",
 ["inputs","histories"],"every list state and hook value",
 "Tests add and remove in one or two orders; holes and end tracking need specific sequences.",
 [I+"hook_list.h"],[("HookList::Add/Remove/Traverse",I+"hook_list.h")])
p("C24","Guarded allocations stay in their own page and addresses map back",
 "A guarded allocation lies entirely within one page owned by its slot, with inaccessible pages on both sides, honours its alignment, and no two live guarded allocations share a slot. Every address of the guarded area maps back to the nearest valid slot, the counts of allocated slots are exact, and writes past the requested size within the checked bytes are detected on free.",
 ["inputs","histories"],"all sizes up to a page, alignments, slots, addresses in the area",
 "Tests allocate at random; rounding at page halves and alignment padding need particular values.",
 [T+"guarded_page_allocator.h",T+"guarded_page_allocator.cc"],[("GuardedPageAllocator",T+"guarded_page_allocator.cc")])
p("C25","Time-windowed trackers cover exactly the epochs they claim",
 "A time series keeps its covered time equal to the sum of the gaps of its entries, advances by one slot exactly when the clock enters a new epoch and resets if the clock goes backwards. The epoch computed from a clock reading by multiplication equals the exact quotient for every reading, and records are reported into the current epoch only.",
 ["inputs","histories"],"every tracker state, clock reading",
 "Tests advance a fake clock regularly; regressions and long gaps are rare.",
 [I+"timeseries_tracker.h"],[("TimeSeriesTracker::UpdateClock/Report/IterBackwards",I+"timeseries_tracker.h")])
p("C26","Bounded formatting never overruns and always terminates its output",
 "Printing into a fixed buffer never writes outside it, always leaves it terminated, keeps a prefix of the full text, and reports how much space the full text would need. Holds for every buffer size, including zero and one, and every sequence of prints.",
 ["inputs","histories"],"all buffer sizes and write lengths",
 "Tests use comfortable buffers and one truncation.",
 [I+"logging.h",I+"logging.cc"],[("Printer",I+"logging.h")])
p("C27","Per-CPU cache operations stay atomic under preemption and migration",
 "A push or pop on a CPU's cache takes effect entirely or not at all whatever preemption, migration or concurrent draining happens, so no object is lost or duplicated.",
 ["schedules"],"all interleavings with preemption and migration",
 "Needs restartable-sequence semantics at every instruction.",
 [I+"percpu_tcmalloc.h",I+"percpu_rseq_x86_64.S"],[("restartable sequences",I+"percpu_rseq_x86_64.S")])
p("C28","Heap samples estimate the true heap without bias",
 "The expected value of the sampled heap profile equals the true heap contents for every allocation pattern.",
 ["histories","inputs"],"all allocation patterns, in expectation over the sampler's randomness",
 "A statistical property of pseudo-random choices.",
 [T+"sampler.h",T+"sampler.cc",I+"exponential_biased.h"],[("Sampler::PickNextSamplingPoint",T+"sampler.cc")])
p("C29","Concurrent lock-free readers see consistent metadata",
 "Threads that read allocator metadata without locks (page map, statistics, cache occupancy) while others update it never observe a torn or dangling value.",
 ["schedules"],"all thread interleavings and weak-memory behaviours",
 "Needs all interleavings under the C++ memory model.",
 [T+"pagemap.h",T+"transfer_cache_internals.h",I+"atomic_stats_counter.h"],[("atomics",T+"pagemap.h")])
p("C30","Reallocation preserves contents and yields a block valid for the new size",
 "realloc and reallocarray return a block of at least the new size whose first min(old, new) bytes are those of the old block, freeing the old block exactly once, or fail leaving the old block and its contents untouched. A block is kept in place only if a sized deallocation with the new size is valid for it; an overflowing product fails, size 0 frees, and a null pointer allocates.",
 ["inputs"],"all old blocks (small, large, sampled, guarded), all new sizes, all contents",
 "Tests reallocate a few sizes; a wrong copy length or a block wrongly kept shows for particular pairs of old block and new size.",
 [T+"tcmalloc.cc",T+"tcmalloc_policy.h",T+"span.h"],[("do_realloc / TCMallocInternalRealloc / TCMallocInternalReallocArray",T+"tcmalloc.cc")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
