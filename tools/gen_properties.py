#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
CS = "crates/crabslab/src/"
CA = "crates/craballoc/src/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

IMPL = [CS+"slab.rs", CS+"id.rs", CS+"array.rs", CS+"impl_slab_item/mod.rs", CS+"impl_slab_item/primitives.rs", CS+"impl_slab_item/tuples.rs", CS+"impl_slab_item/glam.rs", "crates/crabslab-derive/src/lib.rs"]

p("M01", "Values round-trip through the slab bit for bit",
  "Any value of any supported type (primitives, floats including every NaN pattern, booleans, options, arrays, tuples, ids, typed arrays, vectors/matrices/quaternions, derived structs and enums, and nestings of these) that is written into a slab at any position where it fits is read back from that position bit-identical. This holds whatever the slab held before, whatever surrounds the item, and after any later writes that do not overlap it.",
  ["inputs", "histories"], "all supported types, all their values, all positions, all previous slab contents, all later non-overlapping writes",
  "Tests write one or two hand-picked small values per type into zeroed memory; the guarantee ranges over all bit patterns, dirty memory and positions.",
  IMPL, [("per-type read/write pairs", CS+"impl_slab_item/*.rs"), ("derive macro codegen", "crates/crabslab-derive/src/lib.rs")],
  ["Slab::write / Slab::read on Vec<u32>, [u32] and CpuSlab"])

p("M02", "Every item occupies exactly its declared size and nothing else",
  "A type's declared slab size is exactly the number of words its encoding needs; writing an item that fits alters no word outside the declared span starting at the given position, and returns the position just past that span. Reading an item depends only on the words of its span.",
  ["inputs"], "all supported types, values, positions and surrounding contents",
  "Tests check a returned index for two types only and never look at neighbouring words.",
  IMPL, [("SLAB_SIZE constants", CS+"impl_slab_item/*.rs"), ("enum size = 1 + largest variant; returned index", "crates/crabslab-derive/src/lib.rs")],
  ["slab words before/after a write, returned index, read under perturbation of outside words"])

p("M03", "The word layout is the fixed, documented one shared by CPU and GPU",
  "Encodings are canonical and depend only on the value: words of multi-word integers are least-significant first, small integers and booleans take one word each, floats are their IEEE bits, composite items are the concatenation of their parts in declaration order, an option is a 1/0 word followed by its payload, an enum is its variant's declaration index followed by that variant's fields. Equal values therefore have equal encodings, independently of position, of earlier contents and of which slab type or bulk operation wrote them.",
  ["inputs"], "all supported types and values, all positions, all write paths",
  "Round-trip tests cannot see a layout change made consistently to reader and writer, although it breaks a GPU-side reader or a stored slab; no test compares words.",
  IMPL, [("per-type encoders", CS+"impl_slab_item/*.rs"), ("declaration-order codegen", "crates/crabslab-derive/src/lib.rs")],
  ["raw slab words compared with an independent reference encoder"])

p("M04", "Checked reads and bounds queries are exact and total",
  "A slab reports that it contains an item if and only if every word of the item lies inside it, for every id including the null id and ids near the numeric limit. A checked read of an item that is not contained yields the type's default, a checked read of a contained item yields the stored item, and no checked read ever panics, whatever garbage words the slab holds (an unknown enum discriminant reads as the default variant, a non-1 option tag or boolean as none/false).",
  ["inputs"], "all ids (incl. null and near u32::MAX), slab lengths (incl. 0), types and slab contents",
  "One test tries six small ids on a three-word slab; garbage contents are never read.",
  IMPL, [("bounds predicate and checked read", CS+"slab.rs"), ("unknown-discriminant fallback", "crates/crabslab-derive/src/lib.rs")],
  ["Slab::contains, Slab::read, Slab::read_vec, Slab::read_into_if_some"])

p("M05", "A write that does not fit is refused and corrupts nothing",
  "Writing an item (or a slice of items) that does not fit completely between the given position and the end of the slab never reports success: the returned index equals the position at which writing stopped fitting. It alters no word before the position and no memory beyond the slab.",
  ["inputs"], "all types, values, positions, slab lengths where the item overlaps or lies beyond the end",
  "No test performs an out-of-bounds write at all.",
  [CS+"slab.rs", CS+"lib.rs", CS+"impl_slab_item/primitives.rs", CS+"impl_slab_item/glam.rs"],
  [("bounds-checked word access on the CPU", CS+"lib.rs"), ("explicit check in some types", CS+"impl_slab_item/glam.rs")],
  ["write_indexed / write_indexed_slice on a window of a larger canary-filled buffer"])

p("M06", "Field offsets address exactly the named field",
  "For every struct deriving field offsets, an item's id plus the offset of a field is the id of that field: reading it yields the field's current value, and writing it changes exactly that field of the item and no other word. This composes through nested structs, the published per-field sizes equal the field's size, and adding offset to id or id to offset is the same.",
  ["inputs", "programs"], "all offset-deriving struct shapes (named, tuple, generic, nested), all field values and positions",
  "One doc test uses the second field of a two-word struct; no test has multi-word fields before the addressed one or nesting at run time.",
  [CS+"offset.rs", "crates/crabslab-derive/src/lib.rs"], [("offset constants", "crates/crabslab-derive/src/lib.rs"), ("id arithmetic", CS+"offset.rs")],
  ["Slab::read/write at id + OFFSET_OF_*"])

p("M07", "Typed arrays address and transfer exactly their elements",
  "Element i of a typed array lives at the array's start plus i times the element size for every i below its length; any other index yields the null id, iteration yields each element id once in order, and conversions to a word array or sub-slice cover exactly the elements' words. Bulk reads and writes are equivalent to element-by-element ones; writing an array touches only the array's own words, and does nothing when fewer data than elements are supplied.",
  ["inputs"], "all arrays (start, length, element type), indices and data lengths",
  "Tests use three arrays of at most six elements with exactly matching data.",
  [CS+"array.rs", CS+"slab.rs"], [("address arithmetic", CS+"array.rs"), ("write_array/read_vec/write_indexed_slice", CS+"slab.rs")],
  ["Array::at/iter/into_u32_array/sub_slab/union, Slab::read_vec/write_array/write_indexed_slice/append_array"])

p("M08", "Appending to a growable slab never disturbs what is already there",
  "Under any sequence of appends, preallocations, reservations and in-place writes on a growable slab, every id or array handed out refers to fresh space disjoint from all earlier ones, lies inside the slab, and keeps its contents until it is itself overwritten. Reserving makes the capacity at least what was asked for (never shrinking it or failing), and preparing to fit some items leaves capacity for all of them without changing length or contents.",
  ["histories", "inputs"], "all operation sequences, item types and sizes, initial lengths and capacities",
  "Tests append two items to an empty slab; reservation behaviour is never observed.",
  [CS+"slab.rs"], [("maybe_expand_to_fit / increment_len / allocate / append", CS+"slab.rs"), ("Vec backing", CS+"slab.rs")],
  ["CpuSlab<Vec<u32>> and Vec<u32> through GrowableSlab"])

p("M09", "Deriving works, with the canonical layout, for every type definition",
  "For every struct (named, tuple, unit) or enum definition whose fields are supported types, whatever the number, order, names, nesting and generic parameters of its fields and variants, deriving compiles and yields an encoding with the canonical layout and size (struct: concatenation of fields; enum: one discriminant word plus the largest variant). Every variant and every field of such a type round-trips, and reading an undefined discriminant yields the default.",
  ["programs", "inputs"], "generated type definitions (shapes, arity, nesting, generics, field names) times generated values",
  "Four hand-written types are derived in the tests; the macro is a program generator and ranges over all type definitions.",
  ["crates/crabslab-derive/src/lib.rs", CS+"lib.rs", CS+"impl_slab_item/tuples.rs"], [("derive_from_slab_struct / derive_from_slab_enum / impl_slabitem_tuples", "crates/crabslab-derive/src/lib.rs")],
  ["compiled generated programs exercising derived types"])

p("M10", "Ids and arrays are faithful, ordered, hashable handles with one null",
  "An id is exactly its 32-bit index: conversion, copying, storing, equality, ordering, hashing and addition of integers or offsets agree with the same operation on the index. The null id is the default, is distinct from every other id, survives a trip through the slab as null, and conditional reads through it leave the target untouched; null arrays behave likewise and are empty.",
  ["inputs"], "all 32-bit ids and arrays, all pairs for the relations",
  "Tests check the size of an id and one stored value.",
  [CS+"id.rs", CS+"array.rs", CS+"offset.rs", CS+"slab.rs"], [("Id/Array trait impls", CS+"id.rs"), ("null constants", CS+"array.rs")],
  ["public Id/Array API"])

VAL = CA+"value.rs"; SL = CA+"slab.rs"; RG = CA+"range.rs"; RT = CA+"runtime.rs"
p("A01", "A commit publishes the latest value of everything alive",
  "After a commit returns, for every value and array element still held by at least one handle, the words of the buffer at its id are the encoding of the last value assigned to it before the commit. This holds for every way of assigning (creation, set, modify, guard, element writes, through any clone, upgraded weak handle or GPU-only handle), any number of assignments between commits, and across buffer growth and reuse of freed space.",
  ["histories", "inputs"], "all sequences of create/mutate/clone/downgrade/upgrade/drop/commit over all item types and sizes",
  "Three tests use single u32 values; no test mixes arrays, multi-word types, reuse, growth and several handles in one history.",
  [SL, VAL, RG, RT], [("update queue and notifier", VAL), ("drain_updated_sources / commit", SL), ("update merging", RG)],
  ["buffer contents in the runtime after commit vs. a reference model"], state=[("update queues", "pending writes per source", VAL), ("notifier channel", "ids of sources with pending writes", SL)])

p("A02", "Nothing reaches the buffer except committed changes of live data",
  "The buffer's contents change only during a commit, and a commit changes only words belonging to values (or array elements) that are still held and were assigned since the previous commit. Words of untouched values, of dropped values and of free space keep their contents, including when the buffer is replaced by a larger one.",
  ["histories"], "all operation histories", "One test checks one word before and after one commit.",
  [SL, VAL, RT], [("per-source pending updates, taken once", VAL), ("commit", SL)], ["full buffer diff around every operation"])

p("A03", "Live allocations never overlap and always lie inside the buffer",
  "At any time the word spans of all live values and arrays of an allocator are pairwise disjoint and exactly as large as their items, ids remain fixed for a handle's whole life and are shared by its clones, and after each commit every span lies within the current buffer's capacity. This holds across any mixture of item sizes, drops, reuse and allocator clones.",
  ["histories", "inputs"], "all allocation/drop/commit histories, item sizes, allocator clones",
  "Tests allocate a handful of equal-sized values.", [SL, RG, VAL], [("allocate / allocate_array / increment_len", SL), ("free list remove", RG)],
  ["Hybrid::id, HybridArray::array, runtime buffer_create capacity"])

p("A04", "Storage stays reserved exactly as long as a strong handle exists",
  "As long as any strong handle (original, clone, GPU-only part or upgraded weak) to a value or array exists, its space is never given to another allocation and its data is never overwritten by one; the reported reference count equals the number of such handles. A weak handle does not keep the data alive, can be upgraded to a working handle exactly while all needed strong parts exist, and never afterwards.",
  ["histories"], "all interleavings of clone, drop, downgrade, upgrade, conversion and commit",
  "Tests only check a count of 1 and drop sole handles.", [VAL, SL], [("Arc/Weak reference counting", VAL), ("strong_count()==0 check at drain", SL)],
  ["ref_count/strong_count/upgrade results, placement of later allocations"])

p("A05", "Dropped storage is always reclaimed and reused before the slab grows",
  "Once all strong handles to a value or array are dropped and a commit has run, its words become available: any later allocation that fits into some maximal run of free words is placed in free words rather than extending the slab, regardless of the order in which neighbours were freed. Free space is never lost, so a workload whose live data and fragmentation are bounded runs forever in a bounded buffer.",
  ["histories"], "all allocation/drop/commit orders and size mixes",
  "One test frees four equal neighbours; lost words and unmerged neighbours only appear in longer histories.", [RG, SL, VAL], [("recycling at drain", SL), ("range merging and first-fit removal", RG), ("drop notification", VAL)],
  ["ids of new allocations vs. exact free-space model; capacity over long runs"], state=[("recycles", "free ranges", SL)])

p("A06", "The free-space manager conserves and fully coalesces ranges",
  "Treated as a set of indices, a range manager's content after adding disjoint ranges and removing blocks is exactly the union of what was added minus what was handed out: nothing is duplicated, lost or invented, and managed ranges are disjoint and never touch each other. Removing a block of n succeeds with exactly n consecutive managed indices whenever some run of at least n exists, and fails otherwise without changing anything; length, emptiness and intersection of a range agree with its index set.",
  ["histories", "inputs"], "all sequences of disjoint add/remove operations and sizes",
  "Tests add a few ranges indirectly and test intersection on one pair.", [RG], [("add_range/remove/should_merge_with/union", RG)],
  ["RangeManager<Range> public API and its ranges"])

p("A07", "Growth preserves contents, happens only when needed, never shrinks",
  "When the slab outgrows its buffer, the next commit creates one larger buffer, copies the entire previous contents to the same positions before writing updates, and uses it from then on; capacity never decreases and is at least the space in use. A commit never replaces the buffer while everything allocated still fits, and growth is geometric, so a history that ends with n words in use replaces the buffer only O(log n) times.",
  ["histories"], "all allocation patterns (many small, few huge, mixed) and commit placements",
  "Tests see at most one growth of a tiny slab.", [SL, RT], [("maybe_expand_to_fit/reserve_capacity", SL), ("recreate_buffer", SL)],
  ["runtime buffer_create/buffer_copy/buffer_write event log"], state=[("capacity/len/needs_expansion", "requested size and pending growth", SL)])

p("A08", "Buffer handles always know whether they are current",
  "A buffer handle obtained from any commit or query reports itself valid exactly as long as its buffer is the one the allocator is using, and reports 'new this commit' exactly when its buffer was created by the most recent commit. Refreshing an invalid handle makes it refer to the allocator's current buffer and returns true; refreshing a valid one changes nothing and returns false; creation times never decrease, and no buffer exists before the first commit.",
  ["histories"], "all histories holding any set of old and new buffer handles and their clones",
  "Tests look at two handles over three commits.", [SL], [("invocation/invalidation counters", SL), ("update_if_invalid", SL)],
  ["SlabBuffer::is_valid/is_invalid/is_new_this_commit/update_if_invalid/creation_time, SlabAllocator::get_buffer"])

p("A09", "The pending-update status is truthful and non-destructive",
  "An allocator reports queued updates whenever an assignment made through any handle has not been committed yet, and reports none after a commit until some handle is created, assigned or dropped; merely reading values or buffers does not change that. The set of updated source ids contains the identifier of every uncommitted live source, contains no identifier of a source untouched since the last commit, and asking for it any number of times loses no update.",
  ["histories"], "all histories interleaving status queries, mutations, reads and commits",
  "Tests query the flag twice on a fresh allocator.", [SL, VAL], [("notifier channel + update_queue", SL)],
  ["has_queued_updates, get_updated_source_ids, notifier_index"])

p("A10", "CPU-side handles read back the latest assignment; guards queue only writes",
  "Reading a value or array element through any of its CPU-side handles returns the last value assigned through any of them, immediately and without a commit, for every assignment route, and element writes leave the other elements alone. Closures' results and replaced old values are returned, out-of-range element accesses return nothing and change nothing, and a write guard that was only read from queues no update while one that was written through queues exactly the final value when it is dropped.",
  ["histories", "inputs"], "all assignment routes, clones, indices (in and out of range), guard usages",
  "One test uses a guard on one value; arrays are never modified in tests.", [VAL], [("RwLock'd CPU value shared by clones", VAL), ("guard mutated flag", VAL)],
  ["Hybrid/HybridArray get, get_vec, modify, set, set_item, lock"])

p("A11", "The runtime is driven by a strict protocol",
  "The runtime sees buffers created with the allocator's label and usages and a capacity of at least one word, one copy per replacement from the current buffer to its successor, and writes only to the current buffer. In each write batch every update's data is exactly as long as its target, all targets lie inside the buffer, and no two updates of the same batch overlap, so that the batch may be applied in any order.",
  ["histories", "configurations"], "all histories, labels, usages and runtimes",
  "Only the CPU runtime is exercised, which does not check any of this.", [SL, RT, VAL, RG], [("commit/recreate_buffer", SL), ("update merging", RG)],
  ["a custom runtime that records every call"])

p("A12", "Merging queued updates equals applying them in order",
  "Adding any sequence of slab updates to an update manager and then applying the managed updates in any order leaves memory in exactly the state that applying the original sequence in order would. Words not covered by any added update are not touched, managed updates never overlap, and each one's data is as long as its target.",
  ["inputs", "histories"], "all update sequences: positions, lengths (incl. zero), overlaps, containments, duplicates",
  "No test merges overlapping updates.", [RG, RT], [("SlabUpdate merge/union", RG), ("intersects", RT), ("Array::union", CS+"array.rs")],
  ["RangeManager<SlabUpdate> public API"])

p("A13", "The reference CPU runtime is an exact word memory",
  "On the CPU runtime a new buffer has exactly the requested number of zero words, a copy reproduces the source's words at the start of the destination and leaves the rest alone, and writes change exactly the targeted words, with later updates winning. Reading any kind of range bound (inclusive, exclusive, unbounded, empty) inside the buffer returns exactly the selected words.",
  ["inputs", "histories"], "all capacities, update batches and range bounds",
  "No test calls a runtime operation directly; range reading is never exercised.", [RT], [("CpuRuntime", RT), ("range_to_indices_and_len", RT)],
  ["IsRuntime methods of CpuRuntime"])

p("A14", "Empty, zero-sized and out-of-range uses are harmless",
  "Creating, assigning, cloning, committing and dropping empty arrays and zero-sized items, and addressing array elements out of range on any handle, never panics at the call or in any later operation, never touches any word of another allocation and leaves all other guarantees intact.",
  ["inputs", "histories"], "all positions of degenerate operations inside arbitrary histories",
  "No test creates an empty array or a zero-sized item, or addresses out of range.", [VAL, SL, RG, CS+"array.rs"], [("null array handling", SL), ("element id lookup", CS+"array.rs")],
  ["allocator API with degenerate arguments, then commit"])

p("A15", "A panic in one value's update code is contained",
  "If user code panics while modifying, encoding or copying one value (in a closure, a guard's scope, or the item's own encode or clone), all other values of the allocator can still be read, assigned, created, dropped and committed with all guarantees intact. Later commits still publish every other value's latest assignment.",
  ["fault_sequences", "histories"], "all positions of a panic within user callbacks within arbitrary histories",
  "No test injects a panic.", [VAL, SL], [("per-value locks; no allocator lock held while user code runs", VAL)],
  ["operations after a caught panic"])

p("C01", "Concurrent assignments are never lost",
  "When several threads create and assign values of one allocator while others commit, every assignment that completed before a commit started is contained in (or superseded by a later one in) the buffer when that commit returns, including values created concurrently with commits. Once all threads are done, one more commit makes the buffer equal to the last value of everything alive and the CPU-side view agree with it.",
  ["schedules", "histories"], "all interleavings of create/set/modify/guard/element writes with commits and status queries",
  "All tests are single-threaded.", [SL, VAL], [("notifier channel and source map", SL), ("per-source update mutex", VAL)],
  ["buffer contents at quiescence and after each commit in a recorded history"])

p("C02", "Concurrent allocation is disjoint and always backed by the buffer",
  "Values and arrays created at the same time from several threads, directly or through allocator clones, receive pairwise disjoint space, also while freed space is being reused and commits are running. Every commit provides a buffer large enough for every update it writes, so no commit ever writes out of bounds or fails.",
  ["schedules"], "all interleavings of allocation, drop and commit in several threads", "All tests are single-threaded.",
  [SL, RG], [("len/capacity/needs_expansion updates", SL), ("free list lock", SL)], ["ids of all live handles; runtime write log vs. capacity"])

p("C03", "Committed state never tears or goes back in time",
  "With any number of concurrent writers and committers, every multi-word item in the buffer after any commit is some value that was actually assigned to it as a whole, and the sequence of committed values of an item follows the order of its assignments: a later commit never restores an older one. Array elements behave likewise, each on its own.",
  ["schedules", "histories"], "all interleavings of writers of the same item with concurrent commits, including buffer growth", "All tests are single-threaded.",
  [SL, VAL], [("whole-item updates under a mutex", VAL), ("commit", SL)], ["buffer snapshots after each write batch, with sequence-numbered self-describing values"])

p("C04", "Concurrent drops neither leak nor double-free",
  "When handles are cloned, dropped, downgraded and upgraded in several threads while others allocate and commit, each allocation's space is reclaimed exactly once, after its last strong handle is gone. After all threads are done and a commit has run, live space plus reusable space accounts for every word ever taken.",
  ["schedules"], "all interleavings of drop/clone/upgrade with commits and allocations", "All tests are single-threaded.",
  [VAL, SL, RG], [("drop notification", VAL), ("drain_updated_sources", SL)], ["at quiescence: refill of all free space without growth and without overlap"])

p("C05", "Buffer handles stay coherent under concurrent commits",
  "While other threads commit and the slab grows, refreshing a buffer handle never fails and yields a buffer at least as new as the newest one whose commit had returned before the refresh began, already holding everything such commits published; a handle never moves back to an older buffer. At quiescence all refreshed handles share the allocator's current buffer and report valid.",
  ["schedules"], "all interleavings of refresh/validity queries with growing commits", "All tests are single-threaded.",
  [SL], [("invalidation counter + shared buffer slot", SL)], ["update_if_invalid/get_buffer/creation_time in threads racing with commits"])

p("C06", "Every operation completes: no deadlock, no spurious panic",
  "In any concurrent or single-threaded use of allocators, handles and buffers in which no user callback blocks and no write guard is held by the calling thread across another access to the same value, every operation returns in a bounded number of steps and none panics. No set of operations can deadlock, also when they involve several allocators, values and clones.",
  ["schedules", "histories"], "all interleavings of all public operations", "All tests are single-threaded.",
  [SL, VAL], [("lock ordering of queue, sources, free list, buffer", SL)], ["completion of every operation; deadlock detection by Miri and by kernel thread state"])

p("C07", "No undefined behaviour and no data race anywhere in the API",
  "No sequence of safe public API calls, from one or many threads, on any input (including out-of-range ids, garbage slab words, degenerate sizes and panicking callbacks) causes undefined behaviour: no out-of-bounds or uninitialised access, no invalid value, no data race, no leak of allocator-internal memory when everything is dropped.",
  ["schedules", "inputs", "histories"], "all public API call sequences and interleavings", "Tests run natively without any sanitizer and single-threaded.",
  [CS+"slab.rs", CS+"lib.rs", VAL, SL, RT], [("bounds-checked accessors", CS+"lib.rs"), ("std locks and atomics", SL)], ["Miri and AddressSanitizer reports over the other workloads"])

p("W01", "The wgpu runtime behaves exactly like the reference CPU runtime",
  "For every history of allocator operations, the bytes of the wgpu buffer after each commit equal the words the CPU runtime's buffer holds after the same history, growth included. Reading any word range or typed array back through the wgpu runtime returns exactly those words or items, and reading before the first commit is reported as an error rather than a panic.",
  ["histories", "inputs", "configurations"], "all allocator histories and read ranges", "The wgpu runtime is compiled but never executed by any test.",
  [RT, CA+"slab/wgpu_slab.rs"], [("WgpuRuntime", RT), ("SlabAllocator<WgpuRuntime>::read/read_array", CA+"slab/wgpu_slab.rs")],
  ["WgpuRuntime on an in-memory wgpu-hal device"])

p("G01", "GPU builds read and write the same layout as CPU builds",
  "Code compiled for the GPU (SPIR-V) target with the same item types reads exactly what the CPU build wrote, and the CPU build reads exactly what it wrote, for every type, derived ones included, value and position; field offsets and sizes agree, words around an item are left alone, and reading arbitrary words gives the same value on both. A checked read through an id or array index that lies outside of the slab gives the default, as on the CPU, and touches nothing outside.",
  ["inputs", "configurations"], "all types, values, words and positions, across the two compilation targets", "No test compiles for the GPU target.",
  [CS+"lib.rs", CS+"slab.rs", CS+"id.rs", CS+"array.rs", "crates/crabslab-derive/src/lib.rs"], [("cfg(target_arch = \"spirv\") accessors", CS+"lib.rs"), ("Slab for [u32] and [u32; N]", CS+"slab.rs")],
  ["words written and values read by the crate compiled with the SPIR-V half enabled, run on the host; out-of-bounds accesses of the unchecked intrinsics"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
