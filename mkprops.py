#!/usr/bin/env python3
"""Generates properties.jsonl (kept as a generator so the fields stay uniform)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

NODES = ["src/node/cnode.rs", "src/node/lnode.rs", "src/node/snode.rs", "src/node/mnode.rs"]
TRIE = ("trie of branch nodes, collision lists and single entries", "the persistent representation of one version", "src/node/mnode.rs")

p("C01", "Map insert, find and remove behave like a dictionary",
  "For every history of insertions (replacing or not) and removals, starting from any version of a map and under any hash function, however badly it collides, looking up any key returns exactly the key and value a plain dictionary would hold, or not-found. A non-replacing insert of a present key is refused and reports the stored entry, a replacing insert stores the new key and value and reports the old entry, an insert of an absent key succeeds and reports no old entry, and a removal succeeds exactly when the key is present and reports the removed entry.",
  ["histories", "inputs", "configurations"],
  "All finite sequences of insert/find/remove on any earlier version, all key sets, all hash functions (including constant, prefix-sharing and top-bits-only-different hashes), all hash and branching widths.",
  "Existing tests insert up to 25000 integers under one well-spread hasher and look each one up; none removes an entry, replaces inside a collision list, forces full or deep prefix collisions, or checks a history against a model.",
  ["src/map.rs", "src/hash_trie.rs", "src/flag.rs", "src/bit_indexed_array.rs"] + NODES,
  [("branch descent by hash slices", "src/flag.rs"), ("insert/remove/find dispatch and lifting of colliding entries", "src/node/lnode.rs"), ("copy-on-write of branch arrays", "src/bit_indexed_array.rs")],
  [TRIE], ["HashTrieMap::insert", "HashTrieMap::find", "HashTrieMap::remove"])

p("C02", "Old versions never change",
  "No operation changes a map or set version obtained earlier: after any number of inserts, removals, bulk operations and drops on versions derived from it or sharing structure with it, a version still has exactly the entries it had, and finds, visits and sizes answer as they did when it was made. References handed out from a version stay valid and keep their contents for as long as that version is alive.",
  ["histories", "inputs"],
  "All forests of versions created by any interleaving of operations and drops, re-observed at any later time.",
  "Tests keep at most the newest version plus one input and never re-read an old version after it was modified from.",
  ["src/map.rs", "src/set.rs", "src/hash_trie.rs", "src/bit_indexed_array.rs"] + NODES,
  [("copy-on-write of branch arrays", "src/bit_indexed_array.rs"), ("shared ownership of nodes", "src/node/mnode.rs")],
  [TRIE], ["visit/find/size on retained versions"])

p("C03", "Size and visit agree with the entries",
  "For every map or set, however it was produced (new, insert, remove, any bulk operation, clone), its size equals the number of distinct keys that lookup finds in it. Visiting calls the given operation exactly once for each of those entries, with the stored key and value, and for nothing else.",
  ["histories", "inputs"],
  "All versions reachable through any operation history, including maps that became empty and maps with collision lists.",
  "size() is asserted only for one emptied map and one three-entry list; visit is never called in a test; the count stored in every node is updated separately in each operation.",
  ["src/map.rs", "src/set.rs", "src/hash_trie.rs", "src/bit_indexed_array.rs"] + NODES,
  [("per-node entry counts", "src/node/cnode.rs"), ("per-list entry counts", "src/node/lnode.rs"), ("visit traversal", "src/node/mnode.rs")],
  [("size", "cached number of entries below a node", "src/bit_indexed_array.rs")], ["size()", "visit()", "find()"])

p("C04", "Transform applies the operation to every entry",
  "Transforming a map or set yields exactly the keys whose operation did not answer 'removed', each bound to the original value if it answered 'unchanged' and to the supplied value if it answered 'transformed'; the input is left as it was. Every kept key can be found in the result under its own hash, and further inserts and removals on the result behave normally.",
  ["inputs", "programs"],
  "All maps (any hash function and shape), all assignments of unchanged/transformed/removed to entries, both parallelism strategies.",
  "Tests run two uniform transforms (remove all, square all) on 100 well-spread keys; mixed outcomes, collision lists, partially emptied branches and branch collapse are never reached.",
  ["src/map.rs", "src/set.rs", "src/hash_trie.rs"] + NODES,
  [("transform recursion and node rebuild", "src/node/cnode.rs"), ("collision-list transform", "src/node/lnode.rs")],
  [TRIE], ["transform()"])

p("C05", "Transmute maps every entry to its new key and value",
  "Transmuting a map or set with an operation that keeps each key's hash and distinctness yields exactly one entry for each entry whose operation answered 'transmuted', holding the supplied key and value, and no others. The input is left as it was and the result supports lookup, insertion and removal under the new key type.",
  ["inputs", "programs"],
  "All maps (any hash function and shape), all assignments of transmuted/removed to entries, different key and value types on either side.",
  "Tests transmute 100 well-spread integers uniformly, to the same key type, with no collisions and no mixed outcome.",
  ["src/map.rs", "src/set.rs", "src/hash_trie.rs"] + NODES,
  [("transmute recursion and node rebuild", "src/node/cnode.rs"), ("collision-list transmute", "src/node/lnode.rs")],
  [TRIE], ["transmute()"])

p("C06", "Joint transform of two maps decides every key correctly",
  "Jointly transforming two maps yields, for each key in both, what the both-operation decided (the left entry, the right entry, either one, a supplied value, or nothing), for each key only in the left map what the left-operation decided, and for each key only in the right map what the right-operation decided, and no other entry. This holds for every pair of maps, whatever their shapes and however their keys collide, and both inputs are left as they were.",
  ["inputs", "programs"],
  "All pairs of maps, every combination of branch, collision list and single entry meeting at any depth, all per-key outcomes, both parallelism strategies.",
  "One test joins two well-spread integer maps with one fixed triple of operations; it never meets a collision list on either side, never keeps or replaces a common key, and compares reductions rather than entries.",
  ["src/map.rs", "src/hash_trie.rs", "src/transformations.rs", "src/results.rs"] + NODES,
  [("pairwise node walk", "src/node/cnode.rs"), ("collision-list matching", "src/node/lnode.rs"), ("argument flipping when the right side is the larger node", "src/transformations.rs")],
  [TRIE], ["transform_with_transformed()"])

p("C07", "Joint transform of a map with a transmuted map is correct",
  "Combining a map that is kept with a map of another type that is converted yields, for each common key, the left key with what the both-operation decided (unchanged left value, supplied value, or nothing), for each left-only key what the left-operation decided, for each right-only key the converted entry or nothing, and no other entry. The form restricted to key-preserving conversions gives the same result, and both inputs are left as they were.",
  ["inputs", "programs"],
  "All pairs of maps with different key and value types, every pairing of node kinds at any depth, all per-key outcomes, both strategies.",
  "One test runs one fixed operation triple on well-spread integers of a single type and compares reductions only; the key-preserving form is never called.",
  ["src/map.rs", "src/set.rs", "src/hash_trie.rs", "src/transformations.rs"] + NODES,
  [("pairwise node walk", "src/node/cnode.rs"), ("collision-list matching", "src/node/lnode.rs"), ("flipped dispatch", "src/node/snode.rs")],
  [TRIE], ["transform_with_transmuted()", "transform_with_transfuted()"])

p("C08", "Joint transmute of a map with a transformed map is correct",
  "Combining a map that is converted with a map of another type that is kept yields, for each common key, the right key with what the both-operation decided (unchanged right value, supplied value, or nothing), for each left-only key the converted entry or nothing, for each right-only key what the right-operation decided, and no other entry. The form restricted to key-preserving conversions gives the same result, and both inputs are left as they were.",
  ["inputs", "programs"],
  "All pairs of maps with different key and value types, every pairing of node kinds at any depth, all per-key outcomes, both strategies.",
  "One test runs one fixed operation triple on well-spread integers of a single type and compares reductions only; the key-preserving form is never called.",
  ["src/map.rs", "src/set.rs", "src/hash_trie.rs", "src/transformations.rs"] + NODES,
  [("pairwise node walk", "src/node/cnode.rs"), ("collision-list matching", "src/node/lnode.rs"), ("flipped dispatch", "src/node/snode.rs")],
  [TRIE], ["transmute_with_transformed()", "transfute_with_transformed()"])

p("C09", "Joint transmute of two maps is correct",
  "Combining two maps into a map of a third type yields, for each common key, the entry the both-operation supplied or nothing, for each left-only and right-only key the entry the corresponding operation supplied or nothing, and no other entry. This holds for every pair of maps, whatever their shapes and however their keys collide, and both inputs are left as they were.",
  ["inputs", "programs"],
  "All pairs of maps with three different key and value types, every pairing of node kinds at any depth, all per-key outcomes.",
  "One test runs one fixed operation triple on well-spread integers of a single type and compares reductions only.",
  ["src/map.rs", "src/set.rs", "src/hash_trie.rs", "src/transformations.rs"] + NODES,
  [("pairwise node walk", "src/node/cnode.rs"), ("collision-list matching", "src/node/lnode.rs")],
  [TRIE], ["transmute_with_transmuted()"])

p("C10", "Reductions include every secondary result exactly once",
  "Every bulk operation run with per-entry operations returns the combination, under the given associative and commutative reduction with default as identity, of exactly the secondary results those operations returned: none lost, none counted twice, none invented. On empty inputs it returns the default.",
  ["inputs", "programs"],
  "All bulk operations, all input shapes and outcome assignments, all commutative monoids (checked with the free one: multisets of unique tokens), both strategies.",
  "Tests compare sums of four operations with each other on well-spread keys; a loss common to all of them, or one only in collision lists, removed subtrees or mixed outcomes, is invisible.",
  ["src/hash_trie.rs", "src/map.rs", "src/set.rs"] + NODES,
  [("reduction threading through every match arm", "src/node/lnode.rs"), ("per-branch reduction", "src/node/cnode.rs")],
  [("reduced", "running combination of secondary results", "src/node/cnode.rs")], ["second component returned by each bulk operation"])

p("C11", "The parallelism strategy never changes a result",
  "For every bulk operation that accepts a parallelism strategy, running it on the same inputs with any strategy yields the same entries and the same reduction, calls each per-entry operation the same number of times, and completes.",
  ["configurations", "inputs", "schedules"],
  "All strategies, all inputs and shapes, all per-entry outcomes, any executor polling the returned future.",
  "Tests only ever use the default parallel strategy and never compare it with the sequential one.",
  ["src/enums.rs", "src/hash_trie.rs", "src/node/cnode.rs"],
  [("index-splitting recursion", "src/node/cnode.rs"), ("strategy selection", "src/enums.rs")],
  [TRIE], ["bulk operations run under Sequential and MiddleIndex"])

p("C12", "No undefined behaviour, leak, double drop or use after free",
  "Whatever valid sequence of calls is made, the library performs no undefined behaviour. Every key and value it was given or created is dropped exactly once, no later than when the last version or reference holding it is gone, and no dropped object is ever read.",
  ["histories", "inputs", "programs"],
  "All histories of operations and drops over any number of versions, all shapes and widths.",
  "Unit tests run natively: undefined behaviour in the fixed-size-array construction passes silently, and no test counts drops or releases versions in different orders.",
  ["src/bit_indexed_array.rs", "src/hash_trie.rs"] + NODES,
  [("array construction from uninitialised storage", "src/bit_indexed_array.rs"), ("reference-counted nodes", "src/node/mnode.rs"), ("raw pointers to stored entries", "src/node/snode.rs")],
  [TRIE], ["Miri, AddressSanitizer and LeakSanitizer reports", "per-object life-cycle monitor"])

p("C13", "Versions can be shared and derived from concurrently",
  "Collections are Send and Sync. Versions may be read, cloned, derived from by any operation, and dropped from several threads at once without synchronisation by the caller. No data race occurs, and each thread observes exactly the results it would have observed running alone.",
  ["schedules", "histories"],
  "All interleavings of threads reading, deriving from, and dropping versions that share structure.",
  "No test uses a map from more than one thread.",
  ["src/map.rs", "src/set.rs", "src/node/cnode.rs", "src/bit_indexed_array.rs"],
  [("hand-written Send and Sync for branch nodes", "src/node/cnode.rs"), ("atomically reference-counted nodes", "src/node/mnode.rs")],
  [TRIE], ["ThreadSanitizer and Miri reports", "per-thread result comparison"])

p("C14", "Returned references and pointers denote the stored entries",
  "The pointers a successful insert returns denote the key and value stored in the returned version, at the addresses lookup and visit in that version give. The references an insert, find or remove returns for an existing, replaced or removed entry denote that entry inside the version the call was made on.",
  ["histories", "inputs"],
  "All inserts, finds and removes on any version, including entries in collision lists and entries displaced into deeper branches by the call.",
  "No test reads the returned pointers or compares addresses.",
  ["src/map.rs", "src/set.rs", "src/hash_trie.rs"] + NODES,
  [("pointers taken from freshly built nodes", "src/node/snode.rs"), ("pointers for collision lists", "src/node/lnode.rs")],
  [TRIE], ["insert() Ok pointers and previous references", "insert() Err references", "find()", "remove()"])

p("C15", "Derived versions share untouched entries",
  "A version derived by a single-key operation keeps every entry that does not share the full hash of the affected key in place: same address, key and value neither copied nor moved. A bulk operation keeps in place every uncollided entry it was told to leave unchanged, reusing it from the map it came from.",
  ["histories", "inputs"],
  "All inserts, removes, transforms and joint transforms on any version, under any hash function.",
  "No test looks at addresses or counts copies; losing sharing changes no result, only cost and address stability.",
  ["src/bit_indexed_array.rs", "src/hash_trie.rs"] + NODES,
  [("node reuse on unchanged subtrees", "src/node/cnode.rs"), ("copy-on-write of branch arrays", "src/bit_indexed_array.rs")],
  [TRIE], ["entry addresses via visit/find", "clone counters on keys and values"])

p("C16", "Equality is sound and recognises unchanged versions",
  "A version always equals itself and its clones, equality is symmetric and transitive, and two versions that compare equal hold exactly the same entries. A transform of a single non-empty map or set that leaves every entry unchanged returns a version equal to it, and versions with different entries never compare equal.",
  ["histories", "inputs"],
  "All pairs of versions of any history, including ones that share all or most of their structure.",
  "No test compares two maps with ==.",
  ["src/map.rs", "src/set.rs", "src/hash_trie.rs", "src/node/cnode.rs", "src/node/lnode.rs", "src/node/snode.rs"],
  [("identity comparison of nodes", "src/node/cnode.rs"), ("unchanged-result propagation", "src/hash_trie.rs")],
  [TRIE], ["== and != on versions"])

p("C17", "Sets behave like mathematical sets",
  "For every history, a set's insert, find, remove, size and visit behave like a mathematical set of keys, with replacement swapping in the new equal key. Every bulk operation on sets yields exactly the members and the reduction that the corresponding map operation yields on the same keys, so union, intersection, difference and symmetric difference come out exactly.",
  ["histories", "inputs", "programs"],
  "All set histories and all pairs of sets, every per-member outcome, every bulk operation, any hash function.",
  "Set tests mirror the map ones on well-spread integers; no removal, collision, mixed outcome or resulting membership is checked.",
  ["src/set.rs", "src/hash_trie.rs", "src/transformations.rs"] + NODES,
  [("wrapping of set operations as map operations on unit values", "src/set.rs")],
  [TRIE], ["HashTrieSet methods"])

p("C18", "Word operations follow their documented meaning",
  "For every word type and every argument, the public bit operations return what their documentation states: containment, index, insertion, merge and removal of single bits or their documented error, population count, width, width logarithm, mask and n-th bit. No argument makes them panic.",
  ["inputs", "configurations"],
  "All supported word types (8 to 128 bits and pointer-sized) and all argument values.",
  "Tests exercise these only indirectly through small arrays of one width.",
  ["src/traits.rs", "src/results.rs"],
  [("per-type trait implementations", "src/traits.rs")],
  [], ["the public traits AsUsize, BitContains, BitIndex, BitInsert, BitMerge, BitRemove, CountOnes, LogB, MaskLogB, MaxOnes, NthBit"])

p("C19", "A panic in user code leaves every existing version intact",
  "If user-supplied code (an operation, a reduction, key comparison, hashing or cloning) panics during any call, every version that existed before the call is unchanged and fully usable afterwards. No key or value is leaked, dropped twice or read after being dropped because of the unwinding.",
  ["fault_sequences", "inputs"],
  "A panic injected at every single user-code invocation of any operation on any input.",
  "No test panics inside a callback.",
  ["src/bit_indexed_array.rs", "src/hash_trie.rs"] + NODES,
  [("construction of new nodes before publication", "src/node/cnode.rs"), ("array construction", "src/bit_indexed_array.rs")],
  [TRIE], ["catch_unwind around every operation with an injected panic"])

p("C20", "Look-alike keys address the same entries as owned keys",
  "Looking up, inserting or removing with a key of a different type that hashes and compares like the stored key type gives the same outcome as using the equal stored-type key. Values and keys are converted into the stored types exactly once when an insertion stores them and not at all when it is refused, and maps over standard key types with the default hasher agree with a standard hash map.",
  ["inputs", "histories"],
  "All histories mixing owned and look-alike keys, all hash functions, standard key types (integers, strings, tuples) under the default hasher.",
  "One documentation example inserts one borrowed string; no history mixes key types.",
  ["src/map.rs", "src/set.rs", "src/hash_trie.rs", "src/traits.rs", "src/node/lnode.rs", "src/node/snode.rs"],
  [("generic lookup keys", "src/node/mnode.rs"), ("default hasher adaptor", "src/traits.rs")],
  [TRIE], ["find/insert/remove with look-alike keys"])

p("C21", "Per-entry operations run exactly once with the right arguments",
  "A bulk operation calls its per-entry operation exactly once for every entry of its input; a joint bulk operation calls the both-operation exactly once for every common key with the left entry in the left arguments and the right entry in the right arguments, and the left- and right-operations exactly once for every key only on their side. None is called for anything else, and the arguments are the stored keys and values.",
  ["inputs", "programs"],
  "All bulk operations, all shapes and pairs of shapes, all outcome assignments.",
  "Tests use commutative multiplication of equal values, so swapped arguments or duplicated and missing calls that cancel are invisible.",
  ["src/hash_trie.rs", "src/transformations.rs", "src/map.rs", "src/set.rs"] + NODES,
  [("argument flipping", "src/transformations.rs"), ("pairwise node walk", "src/node/cnode.rs"), ("collision-list matching", "src/node/lnode.rs")],
  [TRIE], ["calls into user operations, recorded by the harness"])

p("C22", "Work stays bounded, however keys collide",
  "Every operation completes on every input. A find, insert or remove hashes and compares keys and copies entries at most a constant number of times plus an amount proportional to the largest group of entries with identical hashes, and its running time is likewise independent of the map's size; asking for the size takes no longer; cloning and comparing a version with its clone take constant time. Visiting, dropping and single-map operations do work linear in the number of entries, and joint operations do too apart from matching within a group of identical hashes. No operation becomes slower with the number of operations run before.",
  ["inputs", "histories"],
  "All maps and hash functions, including constant hashes and hashes that differ only in their last bits.",
  "Tests never count comparisons, copies or allocations, and never build collision lists longer than what one constructor test uses.",
  ["src/flag.rs", "src/hash_trie.rs"] + NODES,
  [("hash slicing by depth", "src/flag.rs"), ("collision-list loops", "src/node/lnode.rs")],
  [TRIE], ["counters in keys, values, hasher and allocator; CPU time of the calling thread"])

p("C23", "All hash and branching widths give the same contents",
  "The same history of operations yields the same lookups, sizes, contents, bulk results and reductions for every supported combination of hash width and branching width, whether the hash is longer or shorter than a whole number of branching steps. No combination makes any operation panic.",
  ["configurations", "histories"],
  "All supported (hash width, branching width) pairs between 8 and 128 bits; hash values that exhaust every level.",
  "Every test uses 64-bit hashes with 32-way branching.",
  ["src/flag.rs", "src/traits.rs", "src/bit_indexed_array.rs", "src/node/cnode.rs"],
  [("hash slicing by depth", "src/flag.rs"), ("array of up to 128 children", "src/bit_indexed_array.rs")],
  [TRIE], ["HashTrieMap/HashTrieSet instantiated at many widths"])

p("C24", "Constant operations equal the per-entry operations they abbreviate",
  "In every bulk operation, giving a constant operation (unchanged; unchanged left, right or either; removed) for any of the roles yields the same entries as giving a per-entry operation that always answers the same. When its secondary value is the reduction's identity, the reduction is the same too.",
  ["inputs", "programs"],
  "All combinations of constant and per-entry operations over the roles of every bulk operation, all pairs of shapes.",
  "Tests use a constant operation only to remove everything from a single map; no joint operation is given one.",
  ["src/transformations.rs", "src/hash_trie.rs", "src/set.rs"] + NODES,
  [("subtree shortcuts for constant operations", "src/node/cnode.rs"), ("flipping of constant operations", "src/transformations.rs")],
  [TRIE], ["bulk operations with constant operations"])

p("C25", "Operation objects call and flip faithfully",
  "Calling an operation object answers what its function answers on the same arguments, or its constant. Flipping a joint operation object and calling it with the sides exchanged answers the same with left and right exchanged, and flipping twice changes nothing. A set's answer converts into the map's answer of the same kind and secondary value.",
  ["inputs", "programs"],
  "All public operation objects for maps and sets, all constants and functions, any arguments.",
  "No test calls flip or call; the joint tests use symmetric functions.",
  ["src/transformations.rs", "src/results.rs"],
  [("call and flip of operation objects", "src/transformations.rs"), ("exchange of left and right answers", "src/results.rs")],
  [], ["the public call*/flip* methods and constructors"])

p("C26", "Bulk-operation futures are lazy, abandonable and independent",
  "Calling an asynchronous bulk operation runs no operation, comparison or copy until its future is polled, and a future dropped before it completes leaves every version as it was and leaks nothing. A future polled only after other operations have run on the same versions, interleaved with other bulk operations on them, or with a different waker each time, gives the same result as if it had been awaited at once.",
  ["schedules", "programs", "inputs"],
  "All asynchronous bulk operations, all inputs and answers, every place to drop the future and every interleaving of other operations between call and polls.",
  "Every test awaits a bulk operation on the spot; none drops a future, delays its poll or starts a second operation before.",
  ["src/map.rs", "src/set.rs", "src/hash_trie.rs", "src/node/cnode.rs"],
  [("asynchronous bulk operations", "src/map.rs"), ("recursion through boxed futures", "src/node/cnode.rs")],
  [TRIE], ["futures returned by transform*, transmute_with_transformed, transfute_with_transformed", "counters in user code", "live-object balance"])

p("C27", "User code may use the library while the library calls it",
  "Keys, values, hashers, operations and reductions may themselves call any operation of the library, from hashing, comparing, cloning, formatting or dropping a key or value or from inside a visit or bulk operation, on any version, including those the outer call works on. The inner and the outer call complete and give the same results as when they run one after the other, and no version changes.",
  ["programs", "histories", "inputs"],
  "All pairs of outer and inner operation, all points at which the outer one enters user code, all versions.",
  "No test's key, operation or reduction calls back into the library; a lock, thread-local cache or counter held across a call into user code goes unnoticed.",
  ["src/map.rs", "src/set.rs", "src/hash_trie.rs"] + NODES,
  [("calls into hashing, equality and clone", "src/node/lnode.rs"), ("calls into operations and reductions", "src/node/cnode.rs"), ("drop of nodes", "src/node/mnode.rs")],
  [TRIE], ["results of outer and inner calls", "retained versions after each run"])

p("C28", "Debug formatting shows every entry exactly once",
  "The Debug text of a map or set, plain, alternate or with any other format options, contains the Debug text of the key of each of its entries, and for maps of the value too, exactly once, and nothing of entries it does not hold. Formatting changes nothing, and formatting into a writer that fails reports the failure: it succeeds only if the whole text was written.",
  ["inputs", "histories"],
  "All versions of all collection types, however they were made, with collision lists and at every width.",
  "No test formats a collection; the branch array's formatting is written by hand.",
  ["src/bit_indexed_array.rs", "src/map.rs", "src/set.rs"] + NODES,
  [("hand-written formatting of branch arrays", "src/bit_indexed_array.rs"), ("derived formatting of nodes", "src/node/lnode.rs")],
  [TRIE], ["format!(\"{:?}\") and format!(\"{:#?}\")"])

p("C29", "Memory follows the contents, not the history",
  "The memory a version holds is bounded by a fixed amount for each of its entries and each branch on their paths, however it came about: removed entries, replaced values and dropped versions leave nothing behind, and a version made by insertions alone has branches only where hashes of its entries part. An emptied collection holds no more than a new one, and when the last version is dropped all memory is returned.",
  ["histories", "inputs"],
  "All histories of insertions, removals and bulk operations with the older versions dropped, all hash functions and widths.",
  "No test measures memory or drops versions along a long history; a retained parent, an unpruned empty branch or a leaked node changes no result.",
  ["src/bit_indexed_array.rs", "src/hash_trie.rs"] + NODES,
  [("pruning of emptied branches and lists", "src/node/cnode.rs"), ("child arrays sized to their contents", "src/bit_indexed_array.rs")],
  [TRIE], ["bytes allocated and freed, accounted to the newest version"])

p("C30", "Reading and sharing a version costs no copy and no allocation",
  "Finding a key, asking for the size, visiting, cloning a version, comparing it with its clone and dropping the clone copy no key or value and allocate no memory, however many entries there are. A refused insertion and a removal of an absent key copy no key or value and leave no memory in use.",
  ["inputs", "histories"],
  "All versions of all collection types, all keys present or absent, all hash functions and widths.",
  "No test counts clones or allocations of a read.",
  ["src/map.rs", "src/set.rs", "src/hash_trie.rs", "src/bit_indexed_array.rs"] + NODES,
  [("lookups through shared nodes", "src/node/mnode.rs"), ("cloning by reference count", "src/hash_trie.rs")],
  [TRIE], ["clone counters of keys and values", "allocation counter"])

p("C31", "Repeating a history repeats everything",
  "The same calls with equal arguments on equally built versions give the same again: the same replies, contents, order of visits, order and arguments of operation calls, Debug text, and the same reduction even when it is not commutative; whatever ran in between, on whatever thread, and however often.",
  ["histories", "schedules", "inputs"],
  "All histories, run twice in one process with other operations before, between and beside them, on the same or another thread.",
  "Every test runs its history once; state that outlives a call, or a result that depends on addresses, would show only on repetition.",
  ["src/map.rs", "src/set.rs", "src/hash_trie.rs"] + NODES,
  [("order of visits and operation calls", "src/node/cnode.rs"), ("bulk operations on lists", "src/node/lnode.rs")],
  [TRIE], ["replies, visit order, call log and Debug text of both runs"])

p("C32", "Every layout of keys and values works",
  "All operations work the same for keys and values of every size, alignment and kind: zero-sized, one byte, kilobytes, over-aligned, packed, with niches, owning heap memory, unsized behind a pointer; keys and values of one layout or of different ones, on either side of an operation and in what it is transmuted to; with any hasher. References and pointers handed out are aligned and read intact.",
  ["inputs", "programs"],
  "All types meeting the documented bounds, all histories of insertions, removals and bulk operations on maps and sets over them.",
  "Tests store small integers and strings under the default hasher.",
  ["src/map.rs", "src/set.rs", "src/traits.rs", "src/bit_indexed_array.rs"] + NODES,
  [("storage of entries", "src/node/snode.rs"), ("storage of children", "src/bit_indexed_array.rs"), ("the hasher trait", "src/traits.rs")],
  [TRIE], ["the public generic interface instantiated over a table of layouts"])

p("C33", "Every platform gives the same results, with or without std",
  "Maps and sets work in a program that has only core, alloc and an allocator, no std. For the same hashes, a program observes the same replies, contents, sizes, visit orders, reductions and word operations with and without std, on 32 and 64 bits, with either byte order, and in debug and optimised builds alike; usize as the hash or branching word behaves like the fixed-width word of its size. Memory is given back to the allocator as it was asked for.",
  ["inputs", "histories", "platforms"],
  "All histories of insertions, removals and bulk operations on maps and sets, all pairs of hash and branching widths, all targets Rust's core and alloc support.",
  "The tests link std (the crate is no_std only outside of tests) and run on one 64-bit, little-endian machine; the arms for other word sizes never run.",
  ["src/lib.rs", "src/traits.rs", "src/map.rs", "src/set.rs", "src/hash_trie.rs", "src/bit_indexed_array.rs"] + NODES,
  [("no_std", "src/lib.rs"), ("word sizes of usize", "src/traits.rs"), ("hash words narrowed to branching words", "src/node/cnode.rs")],
  [TRIE], ["a freestanding program's output on several targets"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
