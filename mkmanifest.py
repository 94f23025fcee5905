#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py."""
import json, os
from registry import REG
T = {
 "C01": "online model-based monitor: every reply of insert/find/remove compared with an ordered dictionary over branching version histories",
 "C02": "snapshot monitor: every retained version re-observed (contents, addresses, size) after every step and every drop",
 "C03": "invariant monitor on every version made: size, visit calls and lookups compared with each other",
 "C12": "address and leak sanitizers, Miri, and a live-object balance monitor (canaried keys/values, census against the versions alive)",
 "C13": "thread sanitizer, Miri's race detector and a concurrent-versus-alone outcome monitor under injected delays",
 "C14": "address monitor: returned references and pointers compared with where visit and find see the entry",
 "C15": "address and clone-count monitor on derived versions",
 "C16": "relation monitor over all pairs of retained versions",
 "C17": "online model-based monitor on sets: histories against a mathematical set, bulk results against a per-key oracle",
 "C18": "exhaustive (8-bit) and random differential run of the word operations against a plain arithmetic reading",
 "C19": "fault injection at every entry into user code, with snapshot, canary and live-object monitors",
 "C20": "model-based monitor mixing owned and look-alike keys; std collections as reference for standard key types",
 "C22": "logical work monitor: counters in keys, values, hasher, reduction and allocator, with budgets; growth of CPU time between collection sizes, depths and ages",
 "C23": "cross-configuration differential monitor: same scripts in 32 width combinations, outcome digests compared step by step",
 "C25": "differential monitor on operation objects: answers against the wrapped function and its mirror image",
 "C26": "schedule monitor on futures: dropped unpolled or pending, polled late or with changing wakers, with counters in user code and a per-key oracle",
 "C27": "re-entrancy monitor: verified library calls made from every entry into user code of an outer call, both compared with undisturbed runs",
 "C28": "token-conservation monitor on the formatted text",
 "C29": "allocation-accounting monitor: bytes attributed to the newest version after every round of a history, against a structural bound",
 "C30": "clone and allocation counters around every reading operation",
 "C31": "repetition monitor: recorded traces of the same history run twice, compared event by event",
 "C32": "model-based monitor over a table of layouts, with pattern and alignment checks on every reference handed out; address sanitizer and Miri in the thorough tier",
}
T["C33"] = "model-based monitor in a program without std under a checking allocator, run natively on 64 and 32 bits, unoptimised and optimised, and on a big-endian target under Miri; digests of all observations compared across platforms"
for i in (4, 5, 6, 7, 8, 9): T["C%02d" % i] = "per-key oracle over generated pairs of collections and operation answers; result observed by visit, find, size and further operations"
T["C10"] = "conservation monitor: unique tokens returned by recorded calls against the reduction's combination"
T["C11"] = "differential monitor across all four strategies on the same inputs"
T["C21"] = "exactly-once monitor over the recorded call log of the per-entry operations"
T["C24"] = "differential monitor: constant operations against per-entry operations that always answer the same"
note = "Held on the executions made (see the evidence file for what was observed): generated workloads biased to colliding and late-diverging hashes, %s. Trusts the oracle in harness/src and that the workload's keys, hashers and operations obey the documented requirements. Says nothing about inputs not driven."
W = {"core": "at 64/32, 8/8 and 128/128 bits (more widths in the thorough tier)", "misc": "on the public word operations and operation objects", "layouts": "on eighteen triples of layouts of keys and values", "core+misc": "at three widths plus standard key types under the default hasher", "none": "in fifteen configurations of hash and branching width on three platforms (three of them also in an optimised build without assertions)", "wide": "in all 32 combinations of hash and branching width"}
checks = [{"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
  "technique": T[p], "level": REG[p]["level"], "level_note": note % W[REG[p]["bins"]]} for p in sorted(REG)]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
 "notes": "No hooks in /repo are needed: every monitor sits at the public interface (keys, values, hashers, operations, reductions and the allocator of the harness are the instrumentation)."}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
