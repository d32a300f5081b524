"""Writes MANIFEST.json from the table below."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
TRUST = " Trusted: the stand-ins for hypercore, replicator and three small crates (DESIGN.md), the harness's own model."
T = {
 'C01': ("runtime monitor: every result compared online with an ordered-map model over seeded histories", 'exploration',
         "Every get, put and del of thousands of histories over seven kinds of keys is compared with the model; no claim beyond the histories run."),
 'C02': ("runtime monitor: predicate-call recorder and model, over seeded histories", 'exploration',
         "Arguments, number of calls and consequences of every predicate in the histories run."),
 'C03': ("runtime monitor: independent decoder checks the whole tree after mutations", 'exploration',
         "Structure of every tree in the log of the histories run, decoded independently of hyperbee."),
 'C04': ("runtime monitor: append-only log watcher, every old version reopened and compared", 'exploration',
         "Each operation's effect on the log, and each prefix of each log, in the histories run."),
 'C05': ("runtime monitor: byte-for-byte differential oracle (a port of the JavaScript algorithm)", 'exploration',
         "The oracle is our reimplementation of the JavaScript algorithm as its source describes it; no log made by the JavaScript version was available here to check it against, but hyperbee as found agrees with it byte for byte."),
 'C06': ("runtime monitor: foreign logs from a reference writer, compared with its model", 'exploration',
         "Logs from our reference writer: batches, metadata, arbitrary valid tree shapes."),
 'C07': ("runtime monitor: streams compared with the model's range, bounds enumerated around keys", 'exploration',
         "All bound positions of small trees, sampled ones of larger trees."),
 'C08': ("runtime monitor: all bound combinations over a set of values against the specified predicate", 'exploration',
         "Every combination of settings over a set of representative and random bound values."),
 'C09': ("runtime monitor: open streams checked against the snapshot of their creation during interleaved writes", 'exploration',
         "Streams and writes interleaved by a seeded scheduler, with failing and suspended writes."),
 'C10': ("runtime monitor: sub-tree operations mirrored on a flat model and log", 'exploration',
         "Operations through several sub-trees of one tree compared with the flat model and byte-identical log."),
 'C11': ("runtime monitor: sub-tree streams compared with the model, hostile neighbours", 'exploration',
         "Prefixes with hostile neighbouring keys, bounds over the sub-tree's key space."),
 'C12': ("runtime monitor: recorded concurrent histories, offline linearizability checker; seeded scheduler and threads", 'exploration',
         "Interleavings at every suspension point chosen by a seeded scheduler, and real threads; each history is fully explained or refused."),
 'C14': ("runtime monitor: the future of an operation dropped at each suspension point in turn", 'fault_enumeration',
         "All suspension points of each sampled operation (up to 40, sampled beyond in the quick tier) with the sampled trees."),
 'C18': ("runtime monitor: wake-accurate executor and counters of storage accesses, polls and nodes", 'exploration',
         "Work bounds are generous constants times the height; completion is judged by an executor that polls only woken tasks."),
 'C13': ("runtime monitor: storage made to fail at each of an operation's accesses in turn, before or after taking effect", 'fault_enumeration',
         "Every access of each sampled operation as the failing one, in three ways; also persistent failures and failures under open traversals."),
 'C15': ("runtime monitor: logs cut at every byte and block, processes killed at random, reopened and compared with the model", 'fault_enumeration',
         "The durability of a block that hypercore acknowledged is hypercore's and the stand-in's; what is decided is hyperbee's part."),
 'C16': ("runtime monitor: seeded arrival orders of blocks at a reader, every result compared with the versions it knew", 'exploration',
         "Arrival is simulated at the core; the network protocol below add_stream is the stand-in's."),
 'C17': ("runtime monitor: reads of systematically and randomly damaged logs, panics and endless loops caught", 'exploration',
         "Some thirty kinds of damage, one to three at a time, and logs with up to 60000 levels; with cycles, single operations and steps only, as in the statement."),
 'C19': ("checking allocator, AddressSanitizer, ThreadSanitizer, Miri and a callback recorder over the exported C symbols", 'exploration',
         "Sanitizers see the executions run; Miri judges by tree borrows."),
 'C20': ("runtime monitor: differential run of generated Python against Rust, and a history checker for concurrent tasks", 'exploration',
         "Python stands for the foreign languages: the only one whose generated code runs here."),
 'C21': ("runtime monitor: log watcher around header creation in every order with other operations", 'exploration',
         "Metadata of many sizes, every state of the log, both ways of getting a header."),
 'C22': ("runtime monitor: several handles on one core used in turn, each answer compared with a fresh handle's", 'exploration',
         "Histories over up to six handles, with warm and cold caches."),
 'C23': ("runtime monitor: height and print compared with an independent decoder of the log", 'exploration',
         "Trees of the histories run, with malformed keys and failing storage."),
 'C24': ("runtime monitor: allocator balance, open files and a witness of the core's release", 'exploration',
         "Release is judged for every history run, and memory balance over repeated cycles."),
 'C25': ("runtime monitor: twin runs with and without a subscriber and Debug formatting, compared", 'exploration',
         "Every record and field formatted in the histories run; formatting from beside suspended operations and from other threads."),
 'C26': ("runtime monitor: writes to damaged logs, the outcome checked by an independent decoder; panics, aborts and hangs caught", 'exploration',
         "Some thirty kinds of damage (cycles included), one to three at a time, followed by random writes."),
 'C27': ("runtime monitor: differential run of five builds on the same histories; the other monitors on a release build", 'exploration',
         "Builds that differ in profile and features, not every combination of both."),
}
NA = {}
for l in open('properties.jsonl'):
    i = json.loads(l)['id']
    if i not in T:
        NA[i] = "check not built yet"
m = {
 'version': 1,
 'setup_cmd': 'bash tools/setup.sh',
 'checks': [{
   'property': i,
   'quick_cmd': f'bash tools/check.sh {i} quick',
   'thorough_cmd': f'bash tools/check.sh {i} thorough',
   'evidence_file': f'evidence/{i}.json',
   'technique': t, 'level': lv, 'level_note': n + TRUST,
 } for i, (t, lv, n) in sorted(T.items())],
 'not_applicable': [{'property': i, 'reason': r} for i, r in sorted(NA.items())],
 'notes': 'No hooks in /repo: the monitors sit in the stand-in for hypercore and around the public interface. DESIGN.md has the details; known_findings.txt lists the defects repaired.',
}
open('MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
