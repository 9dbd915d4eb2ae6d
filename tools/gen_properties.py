#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the wording stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

HT = "src/hash_table.rs"; BK = "src/hash_table/bucket.rs"; BA = "src/hash_table/bucket_array.rs"
HM = "src/hash_map.rs"; HS = "src/hash_set.rs"; HI = "src/hash_index.rs"; HC = "src/hash_cache.rs"
TI = "src/tree_index.rs"; LF = "src/tree_index/leaf.rs"; LN = "src/tree_index/leaf_node.rs"
IN = "src/tree_index/internal_node.rs"; ND = "src/tree_index/node.rs"

p("M01", "HashMap and HashSet behave exactly like a map / set for any sequence of calls",
  "Used from one thread, every HashMap and HashSet call (insert, upsert, replace, update, read, contains, remove, remove_if, every entry operation, iterate, iterate-with-consume, retain, clear, reserve, and the asynchronous form of each) returns what the same call on an ordinary map or set would return and leaves the same contents. This holds for every hash function (including one that maps all keys to one value), every initial capacity, and across any growth or shrinkage the calls cause. A key that compares equal to a stored one never replaces the stored key object except through replace.",
  ["inputs", "histories", "configurations"], "all sequences of calls, all keys and hash distributions, all initial capacities",
  "The tests replay fixed sequences with well-distributed integer hashes and mostly check counts; they do not reach bucket overflow, colliding fingerprints, incremental relocation between arbitrary calls, or combinations of entry operations with resizes.",
  [HM, HS, HT, BK, BA],
  [("bucket search / insert / remove", BK + ": search_entry, insert, remove, insert_overflow, unlink"), ("incremental relocation", HT + ": incremental_rehash_sync/async, relocate_bucket_*"), ("resize decision", HT + ": try_enlarge, try_shrink, try_resize"), ("entry API", HM + ": Entry, OccupiedEntry, VacantEntry, ConsumableEntry")],
  [("bucket array and the old array linked to it", "each key lives in exactly one of the two", BA)])

p("I01", "HashIndex behaves exactly like a map for any sequence of calls",
  "Used from one thread, every HashIndex call (insert, entry operations including in-place modification and replacement of a value, remove, remove_if, peek, peek_with, contains, iterate, iter, retain, clear, reserve, and the asynchronous forms) returns what an ordinary map would return and leaves the same contents. This holds for every hash function and capacity, across growth and shrinkage, and however many removed or replaced entries are still awaiting reclamation because a guard is held.",
  ["inputs", "histories", "configurations"], "all sequences of calls, hash distributions, initial capacities and guard lifetimes",
  "The tests cover short sequences with uniform hashes; they do not vary how many retired slots a bucket carries, nor mix slot reuse, overflow chains and resizes.",
  [HI, HT, BK, BA],
  [("deferred slot reuse", BK + ": mark_removed, clear_unreachable_entries, drop_unreachable_entries"), ("entry replacement", HI + ": OccupiedEntry::update"), ("lock-free iteration", HI + ": Iter")])

p("C01", "HashCache agrees with a map in which only reported evictions remove entries",
  "Used from one thread, every HashCache call returns what an ordinary map would return, where the only entries that ever disappear without being removed are those the put-like calls hand back as evicted. An evicted entry is returned with its own key and value, at most one per call, and never the entry being put. After any sequence of calls the contents are exactly the entries put minus those removed or handed back.",
  ["inputs", "histories", "configurations"], "all sequences of calls, hash distributions and capacity bounds",
  "The tests check hit counts and that sizes stay bounded for a few fixed workloads; they do not account for every entry across evictions, resizes and in-place entry operations.",
  [HC, HT, BK], [("eviction", BK + ": evict_lru_head"), ("put", HC + ": put_sync, VacantEntry::put_entry")])

p("C02", "HashCache stays within its capacity bound and evicts the least recently used",
  "The number of entries in a HashCache never exceeds its maximum capacity, and its capacity always lies in the range it was configured with. A put-like call hands back an evicted entry only if the bucket its key falls into is full, and then it is an entry of that bucket. As long as the table has not been resized, the victim is the entry of the bucket that was put into the cache or obtained through get the longest time ago, whatever removals happened in between.",
  ["inputs", "histories", "configurations"], "all sequences of put / get / remove / entry calls and all capacity ranges",
  "The tests touch recency with a handful of fixed insertions; the recency list is a 32-slot index structure whose corner cases (slot 0, head, tail, single element, removal from the middle) need many different histories.",
  [HC, BK], [("recency list", BK + ": DoublyLinkedList::evict/remove/promote"), ("bound on growth", HC + ": maximum_capacity"), ("eviction on a full bucket", HC + ": VacantEntry::put_entry")],
  [("recency tail", "1-based slot of the most recently used entry", BK + ": Metadata::removed_bitmap")])

p("T01", "TreeIndex point operations behave exactly like an ordered map",
  "Used from one thread, every TreeIndex insert, remove, remove_if, peek, peek_with, peek_entry, contains, len, is_empty and clear returns what an ordered map would return and leaves the same contents, for any order of insertions and removals. An insert of a present key returns the given key and value unchanged and does not disturb the stored entry. This holds across every node split, merge, root growth and root shrinkage those calls cause, and for the asynchronous forms.",
  ["inputs", "histories"], "all sequences of calls, all key sets and insertion / removal orders",
  "The tests insert and remove ascending or random integers in bulk; they rarely build half-empty nodes, removed-but-unreclaimed slots followed by insertions next to them, or deep trees shrinking to nothing and growing again.",
  [TI, LF, LN, IN, ND], [("leaf slots", LF + ": insert, remove_if, search"), ("split", LN + " / " + IN + ": split_node, post_insert"), ("clean-up", LN + " / " + IN + ": post_remove"), ("root", ND + " / " + TI)])

p("T02", "TreeIndex iteration, ranges and range removal are exact and ordered",
  "At quiescence, iterating a TreeIndex yields every entry exactly once in strictly increasing key order, and a range yields exactly the entries whose keys lie within its bounds, for every combination of included, excluded and unbounded ends. Removing a range removes exactly the entries within its bounds and no other. A finished iterator stays finished.",
  ["inputs", "histories"], "all tree shapes and all pairs of bounds",
  "The tests use a few fixed ranges over dense integer keys; bounds that fall on node boundaries, between keys, before / after all keys, or on removed entries need generated trees and bounds.",
  [TI, LF, LN, IN], [("scanner", LF + ": Scanner, min_greater_equal"), ("range traversal", TI + ": Range"), ("bulk unlink", LN + " / " + IN + ": remove_range")])

p("L01", "HashMap and HashSet operations are linearizable, including while resizing",
  "Every operation on a key of a HashMap or HashSet performed by concurrent threads or tasks (synchronous, asynchronous or try-) takes effect at one instant between its call and its return, so that the results of all operations on the key can be explained by one sequential order consistent with real time. No insert, update or removal is lost, duplicated or undone while the table grows, shrinks or moves entries between its old and new arrays. A failed insertion, an absent read or a false removal is reported only if the key was really present / absent at some instant of the call.",
  ["schedules", "histories", "configurations"], "all interleavings of all concurrent programs on the container, from any starting state",
  "Stress tests sample the schedules the machine happens to produce and mostly check final counts; the bundled models cover two fixed two-thread programs.",
  [HM, HS, HT, BK, BA], [("bucket lock", BK + ": Writer, Reader"), ("relocation before access", HT + ": incremental_rehash_*, dedup_bucket_*"), ("array replacement", HT + ": try_resize, end_incremental_rehash")])

p("L02", "HashIndex operations are linearizable, including lock-free reads",
  "Every operation on a key of a HashIndex performed concurrently, including the lock-free reads, takes effect at one instant between its call and its return. In particular a lock-free read never misses a key that is present throughout the read, never returns a value that was removed before the read began, and a removed entry never reappears, also while the table is being resized.",
  ["schedules", "histories", "configurations"], "all interleavings of all concurrent programs on the container, from any starting state",
  "Lock-free readers race with slot reuse and relocation in windows of a few instructions; the stress tests almost never hit them and check only aggregates.",
  [HI, HT, BK], [("publication of slots", BK + ": insert_entry, mark_removed, search_data_block"), ("two-array lookup", HT + ": peek_entry"), ("copy before removal on relocation", BK + ": extract_from")])

p("L03", "HashCache operations are linearizable up to reported evictions",
  "Every operation on a key of a HashCache performed concurrently takes effect at one instant between its call and its return, where an eviction handed back by a call counts as a removal of that entry at an instant of that call. Nothing disappears in any other way, and nothing handed back as evicted or removed is still found later.",
  ["schedules", "histories", "configurations"], "all interleavings of all concurrent programs on the cache, from any starting state",
  "The stress tests only count hits; no test relates evictions reported to one thread to what the other threads observe.",
  [HC, HT, BK], [("put / evict under the bucket lock", HC + ": put_*, VacantEntry::put_entry"), ("relocation", HT)])

p("L04", "TreeIndex operations are linearizable, including during splits and merges",
  "Every insert, remove and read of a key of a TreeIndex performed concurrently takes effect at one instant between its call and its return, also while nodes on the path are split, merged, unlinked or the root is replaced. An inserted key stays readable until removed, a removal succeeds exactly once per inserted entry, and a conditional removal only removes an entry its condition accepted.",
  ["schedules", "histories"], "all interleavings of all concurrent programs on the tree, from any tree shape",
  "The stress tests run random bulk operations with disjoint keys per thread; races between one insert or remove and a split, merge or root replacement at a given point are hit only by luck.",
  [TI, LF, LN, IN, ND], [("slot states", LF + ": insert, remove_if, freeze"), ("splits", LN + " / " + IN + ": split_node"), ("unlinking", LN + " / " + IN + ": post_remove, lock"), ("root clean-up", ND + ": cleanup_root")])

p("S01", "Scans of hash containers visit what stays, never what is not there",
  "A scan of a hash container (iterate, iterate-mutably, retain, the lock-free iterator) running concurrently with other operations and resizes visits every entry that is present throughout the scan, only visits entries that were present at some instant of the scan, and presents each with its own value. The locking scans visit an entry present throughout exactly once unless the table is resized meanwhile (the documentation allows repeated visits then). What a consuming scan, retain or clear removes is exactly what its closure selected, each entry once.",
  ["schedules", "histories", "configurations"], "all interleavings of scans with all concurrent programs, from any starting state (in particular mid-resize)",
  "The tests scan while other threads insert disjoint keys and check counts; a scan crossing the point where buckets move from the old to the new array needs a controlled schedule.",
  [HM, HS, HI, HC, HT], [("bucket traversal", HT + ": for_each_reader_*, for_each_writer_*"), ("relocation during scans", HT + ": incremental_rehash_*, end_incremental_rehash"), ("lock-free iterator", HI + ": Iter")])

p("S02", "TreeIndex scans under concurrency are ordered, complete and in range",
  "An iteration or range over a TreeIndex running concurrently with insertions, removals and range removals yields strictly increasing keys that all lie within the range, yields every entry that is present throughout the scan, and never yields an entry that was not present at any instant of the scan; only while a range removal or clear is in progress may scans and lookups disagree on the entries it removes. A concurrent range removal never removes an entry outside its bounds, and once it has returned no scan shows what it removed.",
  ["schedules", "histories"], "all interleavings of scans with all concurrent programs, from any tree shape",
  "The tests scan while keys far from the cursor change; splits, merges and unlinking of the very leaf under the cursor need a controlled schedule.",
  [TI, LF, LN, IN], [("leaf links", LF + ": push_back, delete_self, Scanner::jump"), ("restart by last key", TI + ": Iter, Range"), ("bulk unlink", LN + " / " + IN + ": remove_range")])

p("X01", "Entry access is exclusive for writers and shared only among readers",
  "While code holds a mutable or occupied view of an entry of a HashMap, HashSet or HashCache (an occupied entry, a closure of update, a mutable scan, or an entry being removed) no other thread observes or modifies that entry, and while code holds a shared view (read, iterate) its value does not change. A value is never observed half-modified, and no modification through a view is lost.",
  ["schedules", "histories"], "all interleavings of all operations that expose an entry to user code",
  "The tests never look at an entry from two threads inside user code at controlled points; violations need one thread to be preempted within a closure.",
  [HM, HC, HT, BK], [("bucket lock", BK + ": Writer, Reader"), ("locked iteration", HT + ": LockedBucket")])

p("D01", "Every key and value is dropped exactly once, and nothing is used after it",
  "Every key and value handed to a container is, over the life of the container and its guards, either returned to the caller or dropped by the container, exactly once, and never accessed afterwards; after the container and all guards are gone and pending reclamation has run, nothing is left. This holds for all containers, across resizes, splits, merges, overwrites, evictions, failed insertions, clear, retain, consuming scans, entry replacement, cloning, and destruction of a container mid-resize.",
  ["histories", "inputs", "schedules"], "all call sequences and interleavings, including destruction at any point",
  "The tests count instances at the end of a few workloads; double frees and leaks of single entries on rare paths (overflow chains, half-relocated tables, nodes being unlinked while scanned) are not reached.",
  [BK, BA, HT, HI, TI, LF, LN, IN], [("bucket array destruction", BA + ": drop"), ("bucket drop", BK + ": drop_entries"), ("leaf drop", LF + ": Drop"), ("deferred reclamation", "sdd guards throughout")])

p("D02", "References obtained under a guard stay valid as long as the guard",
  "A reference to a key or value obtained through a guard from a HashIndex or TreeIndex (peek, peek_entry, iterators, ranges) keeps denoting the same intact value for as long as that guard is alive, whatever any thread does to the container meanwhile: removal, replacement, range removal, clear, resize, slot reuse, or dropping the container itself.",
  ["schedules", "histories"], "all guard lifetimes and all later operations, in the same or other threads",
  "Use-after-reclamation needs the epoch to advance enough while the guard is held and the slot to be reused; the tests do not hold guards across such histories, nor check the value afterwards.",
  [HI, TI, BK, LF], [("epoch of removal recorded per slot", BK + ": mark_removed, drop_unreachable_entries"), ("garbage bucket arrays", HI + ": defer_reclaim, reclaim_bucket_array"), ("retired leaves", LF + " / " + LN)])

p("G01", "Garbage is eventually reclaimed without dropping the container",
  "Entries removed from or replaced in a HashIndex, and entries and nodes removed from a TreeIndex, are dropped after all guards that could see them are gone, provided the container keeps being used, without waiting for the container itself to be dropped. The number of retired but undropped entries stays bounded by the capacity (HashIndex) or by the size (TreeIndex) of the container under any steady workload of insertions and removals, and so does the memory in use. The lock-based containers drop what they remove at once, and their memory does not grow under a steady workload either.",
  ["histories"], "all long-running histories that hold no guard forever",
  "The tests check a few drop counters at the end of a workload; unbounded retention under particular patterns (same bucket, alternating keys, overflow chains, resizes, ranges) is a property of long histories.",
  [HI, BK, TI, LF, LN], [("slot reclamation on the next access", BK + ": clear_unreachable_entries, has_reclaimable_slots"), ("old array reclamation", HI + ": defer_reclaim, dealloc_garbage"), ("unlinking of leaves", LN + ": insert, cleanup_link, Drop"), ("chains of unlinked leaves", LF + ": next_ptr, Drop")])

p("A01", "Dropping a pending asynchronous call leaves the container intact",
  "An asynchronous call that is dropped before completion either took its documented effect completely or had none: the container stays consistent and usable, no lock stays held, no waiter is lost, and no entry is duplicated, lost or leaked. Other threads and tasks make progress as if the call had never been waiting.",
  ["schedules", "histories", "fault_sequences"], "all points at which a pending call can be dropped, all concurrent programs",
  "The tests cancel at few fixed points with timeouts; a cancellation while a lock is being handed over or a bucket is half-relocated needs a controlled executor.",
  ["src/async_helper.rs", HM, HI, HC, HT, TI], [("asynchronous guards", "src/async_helper.rs: AsyncGuard, AsyncWait"), ("relocation in async calls", HT + ": relocate_bucket_async"), ("exit guards", "src/exit_guard.rs")])

p("A02", "Mixed synchronous and asynchronous use never deadlocks or loses a wake-up",
  "With any mix of synchronous and asynchronous callers on the same container, every call returns once the calls and entries it conflicts with have finished or been dropped: no deadlock, no lost wake-up, no endless retry. A task waiting for a lock is woken when the lock becomes available, also if it is moved to another waker between polls.",
  ["schedules", "histories"], "all interleavings of all programs whose threads hold at most one entry at a time",
  "A lost wake-up shows as a hang under one particular order of poll, release and wake; tests would see it as a rare timeout at best.",
  ["src/async_helper.rs", HT, TI, LN, IN], [("wait queues", "src/async_helper.rs, " + BK + ": lock_async, lock_sync"), ("retry after a structural change", TI + ": insert/remove loops, " + LN + ": wait")])

p("B01", "Lock-free reads never wait for writers, and try-calls never wait",
  "Point reads, iteration and ranges of a TreeIndex and the lock-free reads and iteration of a HashIndex complete even if any writer is suspended forever at any point of its operation, and so does every try-entry call of the hash containers. Writes to different keys of a hash container whose table is not being resized are not blocked for longer than their bucket is held.",
  ["schedules"], "all points at which a writer can be suspended, all reads",
  "A test cannot suspend a writer between two memory accesses; a read that spins on a writer's intermediate state looks fast in every test.",
  [HI, TI, HT, LN, IN], [("lock-free lookup", HT + ": peek_entry; " + TI + ": peek"), ("scan restart instead of waiting", LF + ": Scanner; " + HI + ": Iter"), ("try", HT + ": try_reserve_bucket, BucketLock try")])

p("P01", "A panic in user code leaves the container consistent and usable",
  "If user code called by a container (a closure, comparison, clone or value construction) panics and the panic is caught, then no lock stays held, every other entry is unaffected, the entry concerned is in its state before or after the call, nothing is dropped twice or leaked, and all later calls behave as specified.",
  ["fault_sequences", "histories", "inputs"], "all calls and all points at which the user code they call can panic",
  "The tests panic in one or two closures; the container calls user code at many points (comparison in a search, clone on relocation or split, closures in scans) and each must be unwound through.",
  [HM, HI, HC, HT, TI, LF, LN, "src/exit_guard.rs"], [("exit guards", "src/exit_guard.rs and its users"), ("lock release on unwinding", BK + ": Writer / Reader Drop"), ("clone on split", LF + ": distribute, freeze_and_distribute")])

p("K01", "Capacity follows the documented rules, and reserved room is honoured",
  "A hash container created with a capacity, or holding a live reservation, can hold that many well-distributed entries without its capacity falling below that number, and its capacity is a power of two within the range it reports. It grows when filled and, once entries are removed and no reservation requires otherwise, shrinks back to its configured minimum (freeing the table entirely if that is zero); dropping a reservation, or failing to make one, leaves the minimum as it was before. Capacity, the capacity range and the bucket of a key are consistent with one another at all times.",
  ["inputs", "histories", "configurations"], "all capacities, reservation sequences and fill / drain histories",
  "The tests use two or three capacities; arithmetic at boundaries (0, 1, 64, powers of two, above the maximum) and the interplay of several reservations with shrinking need generated histories.",
  [HM, HS, HI, HC, HT, BA], [("array length calculation", BA + ": calculate_log2_array_len"), ("resize policy", HT + ": try_enlarge, try_shrink, sample"), ("reservations", HT + ": reserve_capacity; " + HM + ": Reserve")])

p("E01", "Serialising and deserialising a container preserves its contents",
  "For every container, serialising it and deserialising the result yields an equal container with the same entries, keys and values, for any contents (for a HashCache, up to evictions); deserialising any well-formed map or sequence yields the contents it lists with the documented treatment of duplicates, and malformed input yields an error rather than a panic, hang or leak. A size hint in the input, however wrong, does not affect the resulting contents (beyond a HashCache's capacity).",
  ["inputs"], "all contents and all well-formed and malformed serialized inputs",
  "The tests round-trip one small map per container.",
  ["src/serde.rs"], [("visitors", "src/serde.rs: visit_map, visit_seq")])

p("E02", "Clone, equality, collecting and Debug agree with the contents",
  "A clone of a container equals the original and is independent of it; two containers are equal exactly if they hold the same entries, irrespective of insertion history, capacity, hash seed or pending removals; collecting from an iterator yields the entries the iterator lists with the documented treatment of duplicate keys; and Debug output lists exactly the entries.",
  ["inputs", "histories", "configurations"], "all contents, all histories that lead to them",
  "The tests compare one or two containers with the same history; equality of containers with different capacities, collision patterns or unreclaimed removals is not covered.",
  [HM, HS, HI, HC, TI], [("Clone / PartialEq / FromIterator / Debug implementations", "each container's source file")])

p("R01", "What a thread obtains from a container was completely published to it",
  "Whenever a thread obtains a key or value that another thread put into or modified in a container, everything the other thread did to it before handing it over happens before the access, on every memory model the language permits: there is no data race on user data. The same holds between the last access to a value through the container and its modification or destruction by another thread.",
  ["schedules", "histories"], "all interleavings of all concurrent programs, under the language's memory model rather than the machine's",
  "The test machine is x86-64, whose strong ordering hides missing acquire / release orderings; the two bundled models cover a single scenario each.",
  [BK, BA, HT, LF, LN, IN, TI], [("acquire / release on bitmaps, links and metadata", BK + ", " + LF), ("lock acquire / release", "bucket locks"), ("publication of arrays and nodes", HT + ", " + IN)])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
