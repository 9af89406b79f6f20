#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json (the file is committed; this is only its source)."""
import json,os
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXH="exhaustive enumeration of inputs and environment answers, executed on the real code, each compared with a reference state-space search"
T={
"S01":("bounded exhaustive exploration of the real comparators: all small graph pairs x all random sequences x limit constants, against product-graph reachability",
  "Exhaustive for all graph pairs up to isomorphism, limit constants and random sequences in the listed bounds, plus parametrised families crossing the default phase limits; trusts the reference search and that effects need no larger graph than enumerated."),
"S02":("bounded exhaustive exploration of the real comparators over all small acyclic graph pairs, against product search",
  "Exhaustive within degrees, labels and node numbers listed; families for larger depth and width."),
"S03":("bounded exhaustive exploration of the real comparators, result values compared with breadth-first/depth-first reference searches",
  "Exhaustive over small graph pairs and random sequences; the value carries its origin, so a wrong position is seen even if the verdict is right."),
"S04":("bounded exhaustive exploration of all small graphs, all pairs and triples checked for the order laws on the real code",
  "Exhaustive over all pairs and triples of the enumerated graphs."),
"S05":("bounded exhaustive exploration with callback monitors on every execution (identical pairs never inspected)",
  "Exhaustive over small graph pairs that share nodes, including irreflexive values; every variant."),
"S06":("bounded exhaustive exploration: every small graph pair x every choice of edge orders by position, each execution of the real code compared with a reference search",
  "Exhaustive within the bounds; the orders are choices of the environment, memoised by position."),
"S07":("bounded exhaustive exploration of a parametrised family (shape x size x place and kind of a difference x variant) on the real code, compared with a reference search of the product of the graphs",
  "Exhaustive over the listed shapes, sizes beyond 2^16 and places; says nothing of counters that overflow only beyond 2^20 (thorough) or 2^17 (quick)."),
"L01":("bounded exhaustive exploration: every limit value up to beyond the size of the search, every small graph pair, all limit types",
  "Exhaustive; exact number of visited pairs taken from the reference search."),
"L02":("bounded exhaustive exploration: every precheck limit around the search size, all mode pairs, all random sequences",
  "Exhaustive over small graph pairs; also observes table use, root clones and pair counts of the precheck."),
"W01":("bounded exhaustive exploration with work counters, all random sequences, against the stated linear bound",
  "The bound is checked on every enumerated execution and on families up to thousands of nodes for many limit constants."),
"W02":("bounded exhaustive exploration of descend-mode histories against an explicit phase automaton, traces replayed on the real mode and every step compared",
  "All histories of known/unknown answers to the depth listed for all small limit constants, all random answers."),
"W03":("exhaustive enumeration of union/find histories, real link counts against the logarithmic bound",
  "All histories of unions over small sets and adversarial families for large ones."),
"W04":("model checking with conformance: explicit model (product traversal x phase automaton x closure of known equivalences) run beside every enumerated execution of the real comparators, complete inspection logs compared",
  "Exhaustive over small graph pairs, limits, prechecks and random sequences; the premade cycle-safe comparisons in their slow phase."),
"E01":("exhaustive enumeration of query histories up to a depth, against the equivalence closure",
  "All histories over small identity sets through the real table interface of the interleaving mode, three table implementations."),
"R01":("bounded exhaustive exploration of all small repeated patterns pumped to different lengths, stack addresses monitored at every callback, allocation and release",
  "The stack span must be independent of the pumped length for every gadget; measured on this build's machine code."),
"R02":("bounded exhaustive exploration with live-node and allocation monitors at every callback, against the reference frontier",
  "Upper bounds from the reference model's pending entries."),
"R03":("exhaustive enumeration of endings (equivalent, inequivalent, limit, mode errors, a panic at every callback) with live-object accounting",
  "Every callback of every enumerated execution is made to panic once; nodes, table records, shared pointers and heap bytes are accounted."),
"R04":("bounded exhaustive exploration with instrumented user-supplied table and shared pointer, and an allocation monitor, over all small graph pairs and random sequences",
  "Every table operation and class record of every enumerated execution is accounted for; families for larger sizes."),
"R05":("bounded exhaustive exploration with an allocator monitor on every execution, over all small graph pairs, capacities and limits",
  "Every allocator call of every enumerated execution is counted; the pending pairs come from the reference traversal."),
"C01":("bounded exhaustive exploration with a protocol automaton per node monitoring every callback",
  "Exhaustive over small graph pairs, variants, limits, random sequences and descend-mode answers."),
"C02":("bounded exhaustive exploration with position tracking: every callback's arguments compared with the position they were reached by",
  "Exhaustive over small graph pairs, variants, limits, random sequences and descend-mode answers."),
"C03":("exhaustive enumeration of edge-list lengths and difference positions over whole index ranges of every primitive and small custom index types",
  "Whole range for 8-bit (and 16-bit) types and all custom types of up to 4 values; near the ends for wider types."),
"G01":("exhaustive enumeration of fault points: every question to and request of user-supplied modes answered with an error in turn",
  "All answer sequences within the listed bounds; no callback may follow the first error."),
"G02":("exhaustive enumeration of all answer sequences of a user-supplied descend mode, against a reference search under the same answers",
  "All answer sequences to the first questions, for small graph pairs and all recursion modes."),
"G03":("exhaustive enumeration of all postponement decisions of a user-supplied recursion mode, against a reference model",
  "All decision sequences within the listed bounds."),
"U01":("exhaustive enumeration of all pairs and triples of references over a universe of addresses, lengths and vtables, all operators",
  "Exhaustive over the universe listed."),
"U02":("exhaustive enumeration of operation histories, nestings at every callback and thread schedules under a controlled scheduler (bounded pre-emptions)",
  "Histories of comparisons incl. aborted and panicked ones; nested comparisons at every callback; two threads at callback granularity."),
"U03":("exhaustive enumeration of all bounds of the real generators over a prefix of their state sequence",
  "All 65535 bounds; the generators' states are enumerated from their default state for the number of draws listed."),
"U04":("bounded exhaustive exploration repeated in separately compiled feature configurations and profiles, against the same reference",
  "All small graph pairs in each supported configuration."),
"U05":("exhaustive enumeration of extreme constants x families exhausting them, with debug assertions and overflow checks on",
  "All extreme constants listed; panics and arithmetic overflow are observed on the real code."),
}
have=[i for i in T if os.path.exists(f"{HERE}/harness/src/bin/{i.lower()}.rs") or os.path.exists(f"{HERE}/tools/{i.lower()}.sh")]
m=dict(version=1,setup_cmd="./setup.sh",
 checks=[dict(property=i,quick_cmd=f"./run.sh {i} quick",thorough_cmd=f"./run.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=T[i][0],level="model_checking",level_note=T[i][1]) for i in have],
 not_applicable=[dict(property=i,reason="check not built yet") for i in T if i not in have],
 notes="No hooks in /repo are needed: everything is observed through the public API. known-findings.txt lists repaired and known defects.")
json.dump(m,open(f"{HERE}/MANIFEST.json","w"),indent=1); open(f"{HERE}/MANIFEST.json","a").write("\n")
print(len(have),"checks")
