"""The properties: what they say, where they are anchored, and which runs decide them.

`python3 props.py` rewrites properties.jsonl and MANIFEST.json from this table.

A run is (lane, weight): the lane is a build of the harness and the crate (see
LANES in run.py), the number is how many cases it runs in the quick tier.
"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))


class P:
    def __init__(self, id, title, statement, over, text, why, files, mech, quick, level="exploration",
                 note="", rule="", thorough=None, state=None, observe=None, bin=None, assumptions=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.bin = bin or id.lower()


LIB = "src/lib.rs"
EXT = "src/extension.rs"
IMP = "src/impls.rs"
SLI = "src/slice.rs"
HEAP = ["src/raw/heap/stable.rs", "src/raw/heap/nightly.rs"]
ARR = ["src/raw/array/stable.rs", "src/raw/array/nightly.rs"]
RAW = ["src/raw.rs", "src/raw/capacity.rs", "src/raw/uninit.rs", "src/raw/zero_sized.rs", "src/raw/slice.rs"] + ARR + HEAP
CUR = ["src/iter/raw_cursor.rs", "src/iter/cursor.rs"]

STD = "std oracle: the same operation on a std Vec of (identity, value) pairs; "
TRUST = ("Holds on the executions of this run only. Trusts the monitors (ledger of elements, allocator monitor, models) "
         "and the toolchains. ")

PROPS = [
    P("C01", "Core operations on every storage have the sequence semantics of Vec",
      "On every storage, each documented vector operation (push, pop, insert, remove, swap_remove, truncate, clear, "
      "grow, grow_with, resize, resize_with, extend, extend_from_slice, clone_from, element access) has the effect on the "
      "contents that the same operation has on a Vec, for every sequence of operations and every position. "
      "Returned elements and references are the ones at the named position, and len, is_empty, is_full, capacity, "
      "remaining_capacity, as_slice and iteration agree with the contents after every step.",
      ["inputs", "histories", "configurations"],
      "every history of operations, element size/alignment and storage kind",
      "the tests run a few fixed histories on one or two storages; positions, lengths and growth steps are sampled by hand",
      [LIB, EXT] + RAW, [("ptr arithmetic of insert/remove/swap_remove", LIB), ("capacity check before every write", LIB)],
      [("sd", 22500), ("nd", 15000), ("sa", 7500), ("na", 7500)],
      rule="a case is a random history of operations on one of 24 storage/element combinations, compared with a model after "
           "every operation; non-trivial: it ran operations, distinct: hash of all contents seen"),
    P("C02", "Every element is owned exactly once and dropped exactly once",
      "Every element handed to a vector is, at any moment, either in exactly one vector or iterator or has been given back to "
      "the caller, and its destructor runs exactly once unless the caller leaks it. "
      "This holds through every combination of operations: insertion and removal, growth and reallocation, refused and failed calls, "
      "drain, splice, cursors, dedup, moves and conversions between storages, and iteration by value, ended early or not; "
      "no operation uses or exposes an element that was dropped or moved out.",
      ["inputs", "histories", "configurations"],
      "every history over all operations of the crate and every storage",
      "tests mostly use plain integers, for which a double drop or a leak has no visible effect",
      [LIB, EXT] + CUR + ["src/iter/drain.rs", "src/iter/splice.rs", "src/iter/into_iter.rs"],
      [("gap bookkeeping of the cursor, ManuallyDrop in moves", LIB)],
      [("sd", 12500), ("nd", 7500), ("sa", 6000), ("na", 3000)],
      rule="a case is a random history over all operations on elements that a ledger tracks one by one (state, value, "
           "identity), ended by dropping, converting, iterating or taking the vector apart; the ledger is compared with the "
           "model after every operation"),
    P("C03", "A panic in user code at any point leaks nothing and drops nothing twice",
      "If a clone, comparison, predicate, closure, iterator or destructor supplied by the user panics, at any call in any operation, every element is still "
      "owned exactly once: none is leaked, dropped twice or exposed after being dropped, and the vector can still be used. "
      "When a clone or closure panics, grow, grow_with, resize, resize_with and extend_from_slice leave the vector exactly as it was before the call; when its iterator panics, "
      "extend keeps the old contents followed by the elements taken so far. "
      "After a panic retain and drain_filter have removed exactly the elements chosen so far, a dedup whose relation panicked has removed none, drain and splice leave "
      "everything outside the range intact, and a cursor's work so far is kept, in order.",
      ["fault_sequences", "inputs", "histories"],
      "every callback of every operation as the point where it panics",
      "a handful of tests panic at one fixed call; the rollback code runs on no other path",
      [LIB, EXT] + CUR + ["src/iter/drain_filter.rs", "src/iter/splice.rs", "src/iter/drain.rs", "src/iter/into_iter.rs"],
      [("drop guards that restore the length, cursor drop", LIB)],
      [("sd", 6000), ("nd", 4500), ("sa", 2500), ("na", 2000)], level="fault_enumeration",
      rule="a case is one operation on a random vector: a first run counts the user callbacks of the call, then the same call is "
           "repeated with a panic injected at each callback in turn (all of them up to 24, then a sample), and the state is checked each time"),
    P("C04", "A vector of fixed capacity never holds or writes more than its capacity",
      "A vector on array, slice, boxed or zero-capacity storage never holds more elements than its capacity, which never changes, and never "
      "writes outside its storage. "
      "An operation that would need more room either panics or reports failure, leaving the vector with its old contents (followed by the elements that fit, for extend; partly or wholly replaced by clones, for clone_from).",
      ["inputs", "histories", "configurations"],
      "every operation, capacity and fill level on fixed storages",
      "tests overflow a fixed vector only by push and try_push",
      [LIB, EXT] + RAW, [("reserve of fixed storages", "src/raw/capacity.rs")],
      [("sd", 12500), ("nd", 7500), ("sa", 10000), ("na", 3500)],
      rule="a case fills a fixed storage to within 3 of its capacity and then applies random operations of all kinds, in guarded memory; "
           "non-trivial: at least one operation was refused for lack of room"),
    P("C05", "Out-of-bounds indexes and ranges are rejected and change nothing",
      "Every operation that takes an index or range (insert, remove, swap_remove, split_off, split_off_into, their array and try_ variants, drain, drain_filter, splice, cursor, "
      "raw_cursor, indexing) accepts exactly the positions Vec accepts and rejects all others, including reversed ranges and bounds that overflow. "
      "A rejected call panics (or reports failure, for try_ variants) before anything is changed: contents, length and capacity are as before.",
      ["inputs", "configurations"],
      "every index and range, in particular usize::MAX and len + 1, at every length",
      "tests use in-range positions almost exclusively",
      [LIB, SLI] + CUR, [("assertions on the index", LIB), ("range checks", SLI)],
      [("sd", 12500), ("nd", 7500), ("sa", 5000), ("na", 2500)],
      rule="a case calls operations with indexes and ranges at, around and far past the bounds and compares acceptance with Vec; "
           "non-trivial: at least one call was rejected"),
    P("C06", "try_ operations succeed exactly when possible, and otherwise change nothing",
      "try_push, try_insert, try_pop, try_remove, try_swap_remove, try_reserve and their array variants never panic and never grow the vector "
      "beyond what was asked: they succeed exactly when the operation fits the current length and capacity (try_reserve: when the storage can provide the room). "
      "On failure they hand back the very argument they were given and leave contents, length and capacity unchanged.",
      ["inputs", "histories", "configurations"],
      "every length, capacity and index",
      "tests call each try_ operation once or twice",
      [LIB], [("length and capacity tests before the unchecked operation", LIB)],
      [("sd", 20000), ("nd", 15000), ("sa", 5000), ("na", 2500)],
      rule="a case is a history dominated by try_ operations near full and empty vectors; non-trivial: some call failed and some succeeded"),
    P("C07", "Heap memory is allocated, resized and freed correctly",
      "A heap vector holds at most one block, sized and aligned for its elements and its reported capacity; every reallocation and deallocation passes the pointer and exact "
      "layout of the block, and each block is freed exactly once. "
      "Nothing is allocated for empty vectors, zero-sized elements or zero-sized requests, and no operation other than one that needs more capacity "
      "(or a copy into new storage, or a splice that has to buffer its replacement for a moment) allocates.",
      ["inputs", "histories", "configurations"],
      "every sequence of growth and removal, element layout and conversion between capacities",
      "the system allocator does not check layouts, so a wrong one goes unnoticed in tests",
      HEAP + [IMP, LIB], [("Layout computation and free on drop", HEAP[0])],
      [("sd", 6250), ("nd", 6250), ("sa", 1500), ("na", 1000)],
      rule="a case is a history on heap storage under an allocator that records every block and its layout, moves every reallocated "
           "block and guards its ends; non-trivial: blocks were allocated"),
    P("C08", "Reserving gives the promised room, or fails cleanly",
      "After reserve(n), or try_reserve(n) returning true, n more elements fit without reallocating, and with_capacity(n) makes room for n; if the "
      "capacity suffices already, neither the capacity nor the data pointer changes. "
      "try_reserve returns false, with the vector unchanged, exactly when the room cannot be provided (a fixed storage, a size overflow or a failed allocation), where reserve panics or aborts. "
      "Pushing n elements one at a time onto a heap vector reallocates O(log n) times.",
      ["inputs", "histories", "fault_sequences"],
      "every request up to usize::MAX, at every length, with the allocator failing at any call",
      "tests reserve small amounts and never see an allocation fail",
      HEAP + RAW + [LIB], [("growth policy and overflow checks", HEAP[0])],
      [("sd", 6250), ("nd", 3750), ("sa", 1250), ("na", 750)],
      rule="a case reserves random and boundary amounts on growing and fixed storages, with allocation failures injected; non-trivial: a "
           "request was refused or a vector grew"),
    P("C09", "Drain removes exactly its range, however it is consumed",
      "drain(range) yields exactly the elements of the range, in order from both ends, with exact lengths, and when it is dropped at any point the "
      "elements of the range that were not yielded are dropped and the vector is its prefix followed by its suffix. "
      "Capacity and data pointer do not change.",
      ["inputs", "histories"],
      "every range, every interleaving of steps from both ends, every point of abandonment, every storage",
      "tests drain a few ranges to the end",
      ["src/iter/drain.rs"] + CUR + [LIB], [("cursor drop moves the suffix", CUR[0])],
      [("sd", 25000), ("nd", 15000), ("sa", 7500), ("na", 3500)],
      rule="a case drains random ranges, stepping from both ends and by nth, and stops at a random point; non-trivial: the range was not empty"),
    P("C10", "drain_filter and retain remove exactly the chosen elements",
      "drain_filter and retain show every element of the range to the predicate exactly once, in order (from the end stepped from), remove exactly the chosen "
      "ones and keep all others in order, together with changes the predicate makes to them. "
      "Dropping drain_filter early finishes the filtering as if it had been run to its end, and elements outside the range are untouched.",
      ["inputs", "histories"],
      "every range, predicate (also stateful and mutating), direction of iteration and stopping point",
      "tests filter by one predicate from the front",
      ["src/iter/drain_filter.rs", LIB] + CUR, [("cursor skip/take", CUR[0])],
      [("sd", 25000), ("nd", 15000), ("sa", 7500), ("na", 3500)],
      rule="a case applies random predicates to random ranges, from both ends, and compares calls, order and contents with a model"),
    P("C11", "dedup removes exactly the elements equal to their retained predecessor",
      "dedup, dedup_by and dedup_by_key compare each element with the last retained one, in order and with the arguments in Vec's order, drop exactly the ones found equal and "
      "keep all others in order. "
      "The calls made to the relation and the result are those of Vec for any relation, also one that is not symmetric, is stateful or changes the elements.",
      ["inputs"],
      "every sequence and every relation",
      "tests use symmetric relations on short sequences",
      [LIB, SLI, "src/iter/drain_filter.rs"], [("partition of the slice", SLI)],
      [("sd", 25000), ("nd", 15000), ("sa", 7500), ("na", 3500)],
      rule="a case deduplicates vectors with runs of equal values by random relations and compares calls and result with Vec"),
    P("C12", "splice replaces exactly its range",
      "splice(range, iter) yields the removed elements in order from both ends, and when dropped, at any point of consumption, the vector is the prefix, all elements "
      "of the replacement in order, and the suffix, whatever the lengths of range and replacement and whatever size hint (within its contract) the replacement gives. "
      "The replacement is consumed only when the splice is dropped; if it does not fit a fixed storage, splice panics with prefix and suffix intact.",
      ["inputs", "histories", "configurations"],
      "every range, replacement length, size hint, consumption and storage",
      "tests splice a few ranges with exact size hints",
      ["src/iter/splice.rs"] + CUR, [("two-phase fill of the gap, buffer for the rest", "src/iter/splice.rs")],
      [("sd", 17500), ("nd", 12500), ("n0", 7500), ("sa", 6000), ("na", 2500)],
      rule="a case splices random ranges with replacements of smaller, equal and larger length, exact and wrong size hints, partly "
           "consumed from both ends; non-trivial: range or replacement not empty"),
    P("C13", "Cursors act as gap buffers and lose nothing",
      "A cursor over a range is a sequence of unread elements with unfilled slots before and after it: take, drop, skip, write, try_write and reserve, "
      "at the front or the back, change it as documented, and the counts of elements and unfilled slots it reports are exact. "
      "The checked cursor panics (or hands the value back) instead of reading without elements or writing without slots; when a cursor is dropped "
      "or finished the vector is the prefix, written front elements, unread elements, written back elements and suffix, in order.",
      ["inputs", "histories"],
      "every range and every sequence of cursor operations from both ends",
      "cursors have almost no tests of their own",
      CUR + [LIB], [("write/read pointers", CUR[0])],
      [("sd", 17500), ("nd", 12500), ("sa", 6000), ("na", 2500)],
      rule="a case opens cursors on random ranges and applies up to 30 operations, comparing all queries with a gap buffer model after each"),
    P("C14", "Iterating a vector by value yields every element once",
      "into_iter yields the elements in order from both ends with exact lengths, its slices show exactly the elements that remain, and dropping it at any point drops "
      "exactly the rest. "
      "The storage is released exactly once, afterwards.",
      ["inputs", "histories", "configurations"],
      "every interleaving of steps, every stopping point, every storage",
      "tests iterate to the end",
      ["src/iter/into_iter.rs", LIB], [("index range of the iterator", "src/iter/into_iter.rs")],
      [("sd", 25000), ("nd", 15000), ("sa", 7500), ("na", 3500)],
      rule="a case builds a vector and iterates it away, from both ends, by nth, partly, with changes through the slices"),
    P("C15", "Moving elements between vectors conserves them",
      "split_off, split_off_into, append, convert, into_raw_parts and from_raw_parts between any two storages move elements without copying or dropping any: "
      "afterwards the source holds exactly what was not moved and the target its old contents followed by the moved elements in order. "
      "If the target has too little room and cannot grow, the call panics with every element still owned exactly once.",
      ["inputs", "histories", "configurations"],
      "every pair of storages, split point and fill level",
      "tests move between two vectors of the same kind",
      [LIB, "src/raw.rs"], [("extend_from_slice_unchecked and length updates", LIB)],
      [("sd", 15000), ("nd", 10000), ("sa", 6000), ("na", 2500)],
      rule="a case moves elements back and forth between vectors on 6 kinds of storage; non-trivial: something was moved"),
    P("C16", "Zero-sized elements are counted exactly",
      "For zero-sized elements every operation keeps the exact count of elements, also at lengths near the maximum, runs each destructor exactly once, never allocates, "
      "and hands out aligned pointers; capacity is unlimited up to the reported value. "
      "A length or request past the reported capacity is refused rather than wrapped around.",
      ["inputs", "histories", "configurations"],
      "every operation and length up to the reported capacity, every storage",
      "one test file, small lengths",
      ["src/raw/zero_sized.rs", LIB, "src/iter/raw_cursor.rs"] + HEAP, [("pointer-as-counter arithmetic", "src/iter/raw_cursor.rs")],
      [("sd", 12500), ("nd", 7500), ("sa", 3500), ("na", 2000)],
      rule="a case runs histories of zero-sized elements on all storages, with counted destructors, and (untracked) at lengths near the capacity"),
    P("C17", "Storages report a capacity that fits, and aligned pointers",
      "For every element type T and every storage made for items of type U, the reported capacity is the number of Ts that fit into the storage's bytes, "
      "and never more, the data pointer is aligned for T and lies in the storage, and storages that cannot be aligned for T are rejected when the vector is made. "
      "with_capacity(n) gives at least n or panics, and save_spare accepts exactly the spare slice of the vector itself.",
      ["inputs", "configurations"],
      "every pair of element and item layouts, every buffer size and every address",
      "tests use matching types",
      RAW + [LIB], [("conversion of capacities between item sizes", "src/raw/capacity.rs")],
      [("sd", 30000), ("nd", 20000), ("sa", 10000), ("na", 5000)],
      rule="a case takes one of 49 pairs of element and storage types (33 that fit, 16 that cannot be aligned), a random buffer, and compares capacity, pointer and rejection with a formula, then fills the vector in guarded memory"),
    P("C18", "Comparison, hashing, formatting and cloning are those of the slice",
      "Equality, ordering, hash, Debug output, indexing, AsRef and Borrow of a vector are those of the slice of its contents, regardless of storage and spare capacity. "
      "A clone has equal contents made by cloning each element exactly once in order, and is independent of the original; clone_from makes the contents equal to the source, whatever the two lengths.",
      ["inputs", "configurations"],
      "every pair of contents and storages",
      "not tested, or by a single derived case",
      [IMP, EXT, LIB], [("delegation to the slice", IMP)],
      [("sd", 6000), ("nd", 4500), ("sa", 1500), ("na", 750)],
      rule="a case makes pairs of vectors on different storages with equal, prefix and near-equal contents and compares every trait with the slice's"),
    P("C19", "Leaking an iterator is safe",
      "If a drain, drain_filter, splice, cursor or by-value iterator is leaked (mem::forget) at any point, elements may be lost, but the vector remains valid: "
      "it holds only live elements, none of them twice and none that was already yielded or handed out, and can be used and dropped normally.",
      ["histories", "inputs"],
      "every iterator, range, and point at which it is leaked, followed by any further operations",
      "no test leaks an iterator",
      ["src/iter/raw_cursor.rs", LIB], [("length cut before the iterator is handed out", "src/iter/raw_cursor.rs")],
      [("sd", 20000), ("nd", 12500), ("sa", 7500), ("na", 3500)],
      rule="a case leaks iterators at random points between other operations; non-trivial: at least one was leaked"),
    P("C20", "Converting between HeapVec and Vec moves the buffer",
      "Converting a HeapVec into a Vec or back keeps contents, capacity and data pointer, copies, allocates and frees nothing, and ownership of the block passes on exactly once. "
      "It works for any element type, length and capacity, empty and unallocated vectors included, and operations can continue on either side.",
      ["inputs", "histories"],
      "every length, capacity and element layout, any number of conversions",
      "one conversion each way in the tests",
      [IMP] + HEAP, [("from_raw_parts of both sides", IMP)],
      [("sd", 25000), ("nd", 17500), ("sa", 7500), ("na", 3500)],
      rule="a case converts back and forth between operations on both types, under the allocator monitor"),
    P("C21", "Initialised storages and spare capacity expose only initialised memory",
      "On storages of initialised Copy elements, set_len(n) accepts exactly n up to the capacity, and the elements it uncovers are the values last stored there; truncation keeps the storage initialised. "
      "spare_capacity_mut gives exactly the unused slots after the contents, and elements written there become the contents, in order, once saved by save_spare!, without touching what was there.",
      ["inputs", "histories"],
      "every sequence of pushes, pops, set_len and spare writes",
      "one test each",
      [LIB] + ARR + ["src/raw/slice.rs"], [("StorageInit", "src/raw.rs")],
      [("sd", 12000), ("nd", 8000), ("sa", 4000), ("na", 2000), ("mi", 48)],
      rule="a case runs operations with set_len on initialised storages, against a model of the whole buffer, and with spare capacity on all storages"),
    P("C22", "Array operations act like their element-wise counterparts",
      "push_array, insert_array, pop_array, remove_array, their try_ and unchecked variants and from_array/into_array move all N elements of the array at once, in order, with the "
      "effect of N element-wise operations at that position, and are refused as a whole if the position or the room does not allow it.",
      ["inputs", "configurations"],
      "every N, length, capacity and position",
      "tests use one N and one position",
      [LIB], [("ptr copies of whole arrays", LIB)],
      [("nd", 15000), ("na", 3750)],
      rule="a case applies array operations with N in 0..=9 at valid and invalid positions (only with the nightly feature, where they exist)"),
    P("C23", "No safe program has undefined behaviour",
      "No program that uses only the safe interface (or the unsafe one within its documented contract) reads uninitialised, freed or out-of-bounds memory, makes a misaligned access or "
      "creates an invalid value or pointer, whatever sequence of operations, element type, storage and panics it contains.",
      ["programs", "inputs", "histories"],
      "every safe program over the crate's types",
      "undefined behaviour is invisible to an assertion",
      [LIB, EXT, IMP, SLI] + RAW + CUR, [("unsafe blocks throughout", LIB)],
      [("mi", 60), ("sa", 2500), ("na", 1000)],
      rule="a case is a random program over all operations, with panics, leaked iterators and element types with few valid values (bool, char, references, enums, NonZero, Box), run in the Miri interpreter (without an aliasing model) and under AddressSanitizer"),
    P("C24", "Custom allocators are used for all memory, and only their own",
      "A heap vector with a custom allocator gets, resizes and returns all its memory from that same allocator instance, through growth, conversion from and to Vec and by-value iteration, with matching layouts, "
      "and drops the allocator exactly once, after its memory was returned. "
      "A failing allocator makes try_reserve return false with the vector unchanged.",
      ["inputs", "histories", "fault_sequences"],
      "every history and every failing call",
      "no test uses a custom allocator",
      [HEAP[1], IMP, LIB], [("Heap<T, A>", HEAP[1])],
      [("nd", 12500), ("na", 3000)],
      rule="a case is a history on a vector with a recording allocator, several instances alive at once (only with the nightly feature, where it exists)"),
    P("C25", "Vectors are Send and Sync exactly when their elements and storage are",
      "A vector, its iterators and cursors are Send (Sync) exactly when the elements and everything else they own or borrow (initialised or custom storage, allocator, predicate, replacement) are Send (Sync); "
      "raw memory (Heap, UninitBuffer, UninitSlice) holds no items by itself and never stands in the way. "
      "Vectors that were sent to or are shared with other threads work as on one thread, and no two threads ever make conflicting unsynchronised accesses: nothing reachable through a shared reference is written.",
      ["configurations", "schedules"],
      "every element type and storage",
      "a missing or excessive auto trait compiles silently",
      ["src/raw/uninit.rs"] + HEAP + CUR, [("unsafe impl Send/Sync", HEAP[0])],
      [("sd", 3000), ("nd", 2000), ("sa", 1000), ("mi", 64)],
      rule="a case compares the auto traits of 40 of about 700 types (28 to 44 vector, storage, iterator and cursor types for each of 16 pairs of element and storage marks; all of them under Miri) with the rule, "
           "or lets up to three threads change, read, iterate and drop vectors, natively and under Miri's data race detector"),
    P("C26", "Unchecked operations equal the checked ones within their contract",
      "Called within their documented contract, every _unchecked operation, set_len_unchecked and the raw cursor have exactly the effect of the checked counterpart, touch nothing outside the vector, "
      "and never allocate.",
      ["inputs", "histories", "configurations"],
      "every state that satisfies the contract, up to its limits (last slot, last element)",
      "tests reach them through the checked operations only",
      [LIB] + CUR, [("unchecked variants", LIB)],
      [("sd", 20000), ("nd", 15000), ("sa", 7500), ("na", 3500)],
      rule="a case is a history dominated by unchecked operations at the limits of their contracts, compared with the model"),
    P("C27", "Results do not depend on features, toolchain or optimisation",
      "The same sequence of operations on the same storage gives the same contents, capacities, results, refusals and order of user callbacks with no features and with the alloc, std and nightly features, "
      "with either supported toolchain, and with or without debug assertions and optimisation (splice aside, where the replacement does not fit a fixed storage: how much of it was taken by then may differ).",
      ["configurations", "histories"],
      "every history under every build configuration",
      "each configuration runs the tests on its own; nothing compares them",
      [EXT, ARR[0], ARR[1], HEAP[0], HEAP[1], "src/raw/capacity.rs"], [("cfg'd duplicates of the same code", EXT)],
      [("sd", 2500), ("al", 2500), ("n0", 2500), ("nd", 2500), ("so", 2500)],
      rule="the same cases run in five builds, and the hashes over all contents, results and callbacks are compared group by group"),
    P("C29", "Every way to make a vector gives what it says",
      "gvec! with a list or a count, collect (by value and from references), with_capacity, default, the constant constructors, and slices and arrays taken as storage, make a vector that holds exactly the given elements in order (or is empty, with at least the requested capacity). "
      "Expressions given to gvec! are evaluated once each, in order; size hints and panics at any expression, clone or step of the iterator do no harm; "
      "what does not fit a fixed storage panics, and everything made so far is dropped.",
      ["inputs", "configurations", "fault_sequences"],
      "every number of elements, storage, size hint and panicking callback",
      "tests build vectors of a few elements that fit",
      [LIB, "src/iter.rs", IMP] + RAW, [("gvec!, count! and uninit_array! macros, FromIterator", LIB)],
      [("sd", 40000), ("n0", 16000), ("nd", 24000), ("sa", 12000), ("na", 8000)],
      rule="a case makes five vectors in random ways, into one of 22 storage/element combinations or one of 6 element types in given memory, at and around what fits, with a third of them panicking at a random callback"),
    P("C28", "What a vector lends out cannot be used after or against it",
      "References, slices, iterators, cursors and spare capacity that a vector lends out cannot be used once the vector, its buffer or its elements were changed, moved or dropped, nor twice at the same time; elements cannot be dropped after what they borrow, "
      "shorter-lived ones cannot get where longer-lived ones are expected, and what is not Send or Sync cannot get to another thread. "
      "A program without unsafe that tries any of this is rejected by the compiler or harmless when it runs, as are leaked and swapped iterators and cursors, retyped storage, lying iterators and ranges, and macros given unsafe code; their proper uses compile and work.",
      ["programs", "configurations"],
      "every safe program that misuses what it was lent",
      "a test has to compile, so it cannot hold a program that must be rejected, and does not see undefined behaviour in one that must be harmless",
      [LIB, "src/raw/uninit.rs", "src/raw/slice.rs", "src/raw/zero_sized.rs", "src/iter/into_iter.rs", "src/iter/drain_filter.rs"] + HEAP + CUR,
      [("lifetimes and PhantomData of views, cursors and storages", CUR[0]), ("signatures that borrow", LIB)],
      [("mi", 1), ("na", 1)], bin="misuse",
      rule="a case is one of about 560 pairs of small programs (28 kinds of views x 15 ways to misuse them, and 130 others), each a misuse and its proper twin; the compiler is asked to accept each, and all that are accepted run in the Miri "
           "interpreter (stable features) or under AddressSanitizer (rustc 1.52.1, nightly feature)"),
]

BY_ID = {p.id: p for p in PROPS}


def claimed():
    d = os.path.join(HERE, "harness", "src", "bin")
    return [p for p in PROPS if p.bin == "misuse" or os.path.exists(os.path.join(d, p.bin + ".rs"))]


def main():
    ps = claimed()
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p.id, "title": p.title, "statement": p.statement,
                "quantifier": {"over": p.over, "text": p.text},
                "why_tests_cant": p.why,
                "anchors": {
                    "files": sorted(set(p.files)),
                    "mechanism": [{"name": n, "where": w} for n, w in p.mech],
                    "observe_at": ["the public interface of the vector", "destructors, clones and other user callbacks",
                                   "calls to the global allocator"],
                    "hook_needed": None,
                },
            }) + "\n")
    tech = "runtime monitoring: random workload, reference model, element ledger, allocator monitor, ASan"
    m = {
        "version": 1,
        "setup_cmd": "python3 run.py setup",
        "hooks": {"guard": "none", "enable": "no hooks: the checks build /repo as it is", "source_commits": []},
        "checks": [{
            "property": p.id,
            "quick_cmd": "python3 run.py check %s" % p.id,
            "thorough_cmd": "python3 run.py check %s --tier thorough" % p.id,
            "evidence_file": "evidence/%s.json" % p.id,
            "technique": TECH.get(p.id, tech),
            "level": p.level,
            "level_note": TRUST + p.note,
        } for p in ps],
        "not_applicable": [{"property": p.id, "reason": "no check yet"} for p in PROPS if p not in ps],
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


TECH = {
    "C03": "runtime monitoring: panic injected at every user callback in turn, element ledger, reference model, ASan",
    "C07": "runtime monitoring: online checker of the trace of allocator calls",
    "C08": "runtime monitoring: allocator monitor with injected allocation failures, reference model",
    "C23": "undefined-behaviour interpreter (Miri) and AddressSanitizer on random safe programs",
    "C24": "runtime monitoring: online checker of the trace of calls to custom allocators",
    "C25": "auto traits observed at run time; threaded workload with a model, under AddressSanitizer and Miri's data race detector",
    "C28": "Miri and AddressSanitizer on every misuse program that the compiler accepts",
    "C27": "runtime monitoring: offline comparison of recorded traces between build configurations",
}

if __name__ == "__main__":
    main()
