"""What each check runs and how its coverage is counted."""
BULK = "Each case draws key hashes (random, all equal, few groups, equal but for one level, equal but for the last level, tree-like mutations of earlier ones), one or two input collections over them, and three operation specifications with per-key answers. Non-trivial: some entry is present. Distinct: operation, constants used per role, the pair of trie shapes met node by node, and the answers given."
HIST = "Each case draws key hashes and a history of operations over retained versions. Non-trivial: every step addresses a key whose situation is classified. Distinct: kind of step, node kind and depth the key meets, size of its hash group, hash width; for bulk steps the operation and the pair of trie shapes."
TRUST = ["keys, values, hashers, operations and reductions of the workload obey the documented requirements", "the sandbox's rustc and std are correct"]
REG = {}
def r(id, bins, rule, quick=25, thorough=420, level="exploration", **kw): REG[id] = dict(bins=bins, rule=rule, quick=quick, thorough=thorough, level=level, assume=kw.pop("assume", TRUST), **kw)
r("C01", "core", HIST)
r("C02", "core", HIST)
r("C03", "core", HIST)
for i in (4, 5, 6, 7, 8, 9, 10, 11, 21, 24): r("C%02d" % i, "core", BULK)
r("C12", "core", HIST, quick=15, phases=["asan", "miri"])
r("C13", "core", "Each case shares base versions between 2 to 6 threads that run scripts of operations at once, with random delays injected in user code, hand versions to each other and drop them; outcomes are compared with the same scripts run alone. Distinct: thread number, script length, universe, delay rate and script seeds.", quick=15, phases=["tsan", "miri"])
r("C14", "core", HIST, completes=False)
r("C15", "core", HIST + " For bulk operations: " + BULK)
r("C16", "core", HIST)
r("C17", "core", HIST + " For bulk operations: " + BULK)
r("C18", "misc", "All pairs of 8-bit words and all 16-bit words against all single bits, then random and boundary words of every other type. Distinct: word type and argument values.", quick=20)
r("C19", "core", "Each case runs one call (insert, remove, find or a bulk operation) once to count the n entries into user code, then n more times with a panic injected at the 1st, 2nd, ... nth (every point for n up to 400). Distinct: operation, injection point, n, input sizes.", level="fault_enumeration")
r("C20", "core+misc", HIST + " A third of the programs use ordinary key types with std hashers.")
r("C22", "core", "Each case builds a collection of up to some thousand keys counting comparisons, hashings, copies and allocations of every operation. Distinct: situation of the key, sizes and constants of bulk operations.", phases=["scale", "stack"])
r("C23", "wide", "Scripts of 10 to 40 operations over hashes structured for one layout, run in all 32 combinations of hash and branching width. Distinct: digest of each script's outcomes.", quick=25)
r("C25", "misc", "Random functions, constants and arguments on every constructor, call and flip. Distinct: object, kind of answer, function.", quick=15)
r("C26", "core", BULK + " Each specification is run with its future dropped unpolled, dropped when pending, polled after 1 to 3 other verified operations on the same versions, and polled with a new waker each time.")
r("C27", "core", "Each case runs one outer call (insert, remove, find, visit, comparison, formatting, drop of a version or a bulk operation) alone and then three times with a monitor in every entry into user code (hash, equality, clone, drop, format, operation, reduction) that runs verified library calls on a pool of versions including the outer call's inputs. Distinct: outer call, inner call, input size.", cpu_case=25)
r("C28", "core", "Each case formats versions of one of the seven collection types, plain and alternate; every key and value prints as a unique token. Distinct: type and trie shape.", quick=20)
r("C29", "core", "Each case drives one collection through 3 to 14 rounds of insertions, removals, churn, emptying and bulk operations keeping only the newest version, and accounts the allocator's bytes to it after each round. Distinct: type, trie shape, kind of round.")
r("C30", "core", "Each case builds one version and counts copies and allocations of finds, size, visit, clone, comparison with and drop of the clone, and refused changes. Distinct: type and trie shape; situation of the key looked up.", quick=20)
r("C31", "core", HIST + " Each history is run twice with unrelated operations before and between, half the time on another thread; replies, visit orders, operation calls, Debug texts and non-commutative reductions are compared.", quick=20)
r("C32", "layouts", "Each case draws a triple of layouts (keys, values, values of the other side) out of a table and runs a history of insertions, removals and bulk operations, comparing contents with a dictionary and reading every reference with its alignment and pattern checked. Distinct: layouts, operation, sizes, hash mode.", quick=20, phases=["asan"], deep_phases=["miri"], san_bins=["lay_a", "lay_b", "lay_c"])
r("C33", "none", "Each case is a history of insertions, removals, bulk operations on maps and sets and word operations, run in fifteen configurations (three in optimised builds) on every platform. Distinct: per platform, kind of step with number of entries and of distinct hashes.", quick=25, phases=["platform"])
