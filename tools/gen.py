#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (committed; regenerate by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COL, TRA, DIS, SER = "src/liblevenshtein/collection/", "src/liblevenshtein/transducer/", "src/liblevenshtein/distance/", "src/liblevenshtein/serialization/"
P = []


def p(id, title, statement, over, text, why, files, mechanism, technique, note, level="exploration"):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m, where=", ".join(files[:3])) for m in mechanism]), technique=technique, note=note, level=level))


QT = [TRA + f for f in ("transducer.h", "transducer.cpp", "lazy_query.h", "lazy_query.cpp", "state_transition.cpp", "position_transition.cpp", "merge.cpp", "distance.cpp", "comparator.cpp", "subsumes.cpp", "unsubsume.cpp", "state.cpp")]
QM = ["bounded transitions over characteristic vectors (position_transition)", "sorting, merging and subsumption of positions in a state", "the minimum over final positions decides acceptance and distance", "breadth-first intersection of dictionary and automaton (lazy query)"]
OPS = {"C01": ("standard", "insertions, deletions and substitutions of single bytes"),
       "C02": ("transposition", "insertions, deletions, substitutions and swaps of two adjacent bytes, where no byte is edited twice"),
       "C03": ("merge-and-split", "insertions, deletions, substitutions, merges of two adjacent bytes into one and splits of one byte into two, where no byte is edited twice")}
for k, (a, ops) in OPS.items():
    p(k, "Queries with the %s algorithm are exact" % a,
      "For every dictionary, query term and maximum distance n, a query with the %s algorithm returns exactly the dictionary terms whose edit distance from the query (the least number of %s) is at most n, each exactly once and with exactly that distance. Nothing is missing, nothing is extra, for terms over any bytes including the empty term, and for any n from 0 to the largest value." % (a, ops),
      ["inputs", "configurations"], "all dictionaries, all query terms over bytes, all maximum distances",
      "The tests compare against a linear scan on one word list with a few sampled queries and bounds up to 3 or so; errors of the automaton show only for particular combinations of repeated letters, windows and bounds.",
      QT, QM, "runtime oracle: every query's result stream judged term by term against an independent DP",
      "Every observed query is judged completely (soundness, completeness, distance, uniqueness) against a full-matrix DP; exhaustive over small universes (all strings over small alphabets to a length, every bound), random and structured beyond. Trusts the DP oracle.")
p("C04", "Result formats, default bound and growing bounds agree",
  "The two result formats (plain terms, terms with distances) give the same terms for the same query, and a query without a bound behaves as one with the documented default bound of 2. Raising the bound only ever adds results and never changes the distance of a term already returned.",
  ["inputs", "configurations"], "all dictionaries, queries, bounds, algorithms and both result formats",
  "The tests use one format per instantiation and fixed bounds; relations between runs are not tested.",
  [TRA + "transducer.h", TRA + "transducer.cpp", TRA + "lazy_query.cpp", TRA + "distance.cpp", TRA + "algorithm.h"], ["the result builder of the lazy query is chosen by type", "default argument for the maximum distance"],
  "runtime relation monitor over pairs of executions", "Compares whole result streams of related executions; random and structured workloads.")
p("C05", "Interleaved queries, iterators and their copies do not affect each other",
  "A query's result stream depends only on its dictionary, algorithm, query term and bound: not on other queries that are open, advanced, copied, assigned or abandoned at the same time, nor on queries made earlier. A copy of an iterator or of a transducer continues independently with the same remaining results, and advancing or destroying one leaves the other valid.",
  ["histories", "inputs"], "all interleavings of opening, advancing, copying, assigning and destroying queries and transducers",
  "The tests run one query to its end before the next; no test holds two iterators or copies one.",
  [TRA + "transducer.h", TRA + "transducer.cpp", TRA + "lazy_query.h", TRA + "lazy_query.cpp", TRA + "intersection.h", COL + "dawg_iterator.h"], ["each query owns its queue, and shares intersections and prefixes by counted references", "the transducer's helpers are stateless"],
  "runtime monitor of random histories against solo runs, plain and under AddressSanitizer", "Each iterator's stream in a random history is compared with the same query run alone; the sanitizer run watches the shared state.")
p("C06", "Concurrent queries on a shared dictionary are race free and exact",
  "Any number of threads may query, iterate and test membership on one dictionary at the same time, each with its own iterator (over shared or own transducers), without a data race. Each operation returns what it returns when run alone.",
  ["schedules", "histories"], "all schedules of concurrent readers of one dictionary",
  "The tests are single-threaded.",
  [COL + "dawg.cpp", COL + "dawg_node.cpp", TRA + "transducer.cpp", TRA + "lazy_query.cpp", TRA + "state_transition.cpp"], ["a completed dictionary and a transducer are only read; queries keep their state to themselves"],
  "ThreadSanitizer plus per-operation result monitor under stress with injected delays", "TSan reports races on executed pairs of accesses regardless of the timing that happened; results are compared with sequential ones. Distinct observed orders are counted.")
p("C07", "A dictionary holds exactly the terms it was built from",
  "A dictionary built from a sorted list of terms reports membership for exactly those terms, a size equal to the number of distinct ones, and iterates over each exactly once. This holds for any byte strings, for the empty term, for terms that are prefixes or suffixes of others, and for repeated terms.",
  ["inputs"], "all finite sets of byte strings",
  "The tests use one word list and random small ASCII lists.",
  [COL + f for f in ("dawg.cpp", "sorted_dawg.cpp", "sorted_dawg.h", "dawg_iterator.cpp", "dawg_node.cpp", "prefix.cpp")], ["incremental minimization of the unchecked path", "size counted on insertion", "depth-first iteration over prefixes"],
  "runtime model monitor: set model against size, iteration and membership", "Exhaustive over all subsets of small universes; random and structured sets beyond, with members, prefixes, extensions, splices and edits probed.")
p("C08", "Unsorted terms are refused and a completed dictionary never changes",
  "Building from a list succeeds exactly when the list is in ascending byte-wise order (repetitions allowed). Adding a term out of order is reported as refused and has no effect on the terms already or later accepted; once construction is complete, adding and removing are refused and leave the dictionary unchanged.",
  ["inputs", "histories"], "all sequences of additions, sorted or not, and all later attempts to change the dictionary",
  "The tests try one unsorted list; refused additions in the middle, high bytes and later changes are not covered.",
  [COL + f for f in ("sorted_dawg.cpp", "sorted_dawg.h", "dawg.cpp")], ["comparison with the previous term", "no-op add and remove on completed dictionaries"],
  "runtime model monitor over random sequences of operations", "Each answer and the final content are compared with a model of the sequence.")
p("C09", "The dictionary graph is acyclic, minimal and free of dead ends",
  "The graph of a completed dictionary is acyclic, every node leads to some term, and no two nodes accept the same set of suffixes: the number of nodes is the least possible for the set of terms. Labels leaving a node are distinct.",
  ["inputs"], "all finite sets of byte strings, including those built with refused additions",
  "The tests check membership only, which a non-minimal graph also satisfies.",
  [COL + f for f in ("sorted_dawg.cpp", "dawg_node.cpp", "dawg_node.h", "dawg.h")], ["register of minimized nodes keyed by structural equality and hash"],
  "runtime graph monitor against an independently minimized automaton", "Walks the real graph and compares its node count with the number of distinct right languages of the set (hash-consed trie).")
p("C10", "Dictionary and node equality is language equality, and hashes agree",
  "Two completed dictionaries compare equal exactly when they hold the same set of terms, however each was made (built, loaded, in whatever order of calls), and equality is symmetric and consistent with inequality. Two nodes of completed dictionaries compare equal exactly when they accept the same suffixes, and equal nodes and equal dictionaries have equal hashes.",
  ["inputs", "histories"], "all pairs of dictionaries and of nodes",
  "The tests compare one dictionary with its own round trip.",
  [COL + f for f in ("dawg.cpp", "dawg_node.cpp", "dawg_node.h", "dawg.h")], ["recursive structural comparison", "hash over labels, finality and targets"],
  "runtime oracle: verdicts on generated pairs against set equality", "Pairs are equal, nearly equal (one term changed) or unrelated; every node pair of small graphs is judged.")
p("C11", "A saved dictionary loads back as the same dictionary",
  "Saving a completed dictionary and loading the result, through streams or any kind of path, in the same or in another process, gives a dictionary with the same terms, size and iteration that equals the original and answers every query alike. Saving replaces whatever the file held, does not change the dictionary, and the loaded one can be saved again with the same effect.",
  ["inputs", "histories"], "all dictionaries and chains of saves and loads",
  "The tests round-trip one small dictionary through one interface.",
  [SER + "serializer.cpp", SER + "serializer.h", "proto/liblevenshtein.proto"], ["node ids, edge list, final ids and size in one message"],
  "runtime round-trip monitor across interfaces, processes and generations", "Content, equality and queries are compared after each hop.")
p("C12", "Torn or damaged saved data is refused or loads coherently, never crashes",
  "Loading any strict prefix of a saved dictionary, an unreadable place or bytes that are no dictionary yields no dictionary instead of a wrong one. Loading arbitrarily altered bytes either yields no dictionary or one whose size, iteration and membership agree with each other; it never crashes, hangs or accesses invalid memory.",
  ["crash_points", "inputs", "fault_sequences"], "all byte positions at which a saved file may be cut, and all alterations of its bytes",
  "The tests never load damaged data.",
  [SER + "serializer.cpp", SER + "serializer.h", COL + "dawg.cpp"], ["parse result, structural validation and size check before a dictionary is handed out"],
  "fault injection on saved bytes with a coherence monitor, plain and under ASan/UBSan", "Every prefix of small saved dictionaries, byte and field mutations, hand-made inconsistent messages; each load is monitored for refusal or coherence.")
p("C13", "Saving reports success only if the dictionary was completely written",
  "When saving reports success, the destination holds a complete dictionary that loads back as the one saved; when any write fails, at whatever byte, the failure is reported. Saving to a destination with enough room succeeds, and a failed save leaves the dictionary in memory unchanged.",
  ["fault_sequences", "crash_points"], "all points at which writing may fail, on streams and on files",
  "The tests write only to healthy places.",
  [SER + "serializer.cpp"], ["the stream state after serialization and flushing decides the result"],
  "fault injection at every byte of stream and file writes", "Faults are enumerated at every byte for small dictionaries, sampled with buffer boundaries for large ones, with real files limited by RLIMIT_FSIZE.", "fault_enumeration")
p("C14", "The distance functions compute exact edit distances, whatever was asked before",
  "Each distance function (standard, transposition, merge-and-split) returns for any two strings exactly the least number of its operations that turns one into the other. The value does not depend on what the same object computed before, on the order of the arguments, or on whether it had been asked the same pair already.",
  ["inputs", "histories"], "all pairs of byte strings and all histories of calls on one object",
  "The tests check some metric laws on random pairs and a few known values.",
  [DIS + f for f in ("memoized_distance.cpp", "standard_distance.cpp", "transposition_distance.cpp", "merge_and_split_distance.cpp", "symmetric_pair.cpp")], ["recursion with a memo table keyed by unordered pairs", "common prefixes are skipped"],
  "runtime oracle: DP and fresh-object comparison over histories of calls", "Exhaustive over small universes in many orders, random beyond.")
p("C15", "The distances obey the laws of an edit distance",
  "Each distance is zero exactly for equal strings, symmetric, at least the difference of the lengths and at most the longer length, unchanged by common prefixes and suffixes where the operations allow and by renaming bytes, and one for any single operation. Each obeys the triangle inequality (the transposition distance with a recorded exception).",
  ["inputs"], "all triples of byte strings",
  "The tests sample random triples, which miss the small exceptional ones.",
  [DIS + f for f in ("standard_distance.cpp", "transposition_distance.cpp", "merge_and_split_distance.cpp", "symmetric_pair.cpp")], ["symmetric memo keys", "recurrences"],
  "runtime law monitor over values returned by the library", "Laws are checked on returned values without an oracle; exhaustive triples over small universes. The known exception (ab, ba, bca) is identified up to renaming.")
p("C16", "A distance object is safe to share between threads",
  "Threads may call one distance object at the same time, on the same or on different pairs, without a data race or a deadlock. Every call returns the exact distance.",
  ["schedules", "histories"], "all schedules of concurrent calls",
  "The tests are single-threaded; the locks are never contended.",
  [DIS + "memoized_distance.cpp", DIS + "memoized_distance.h"], ["reader-writer lock around the memo table"],
  "ThreadSanitizer plus value oracle under stress", "TSan reports races on executed accesses; values are compared with the DP oracle.")
p("C17", "No memory error or undefined behaviour in any supported use",
  "No sequence of supported operations (building, querying, copying, iterating, comparing, saving, loading good or bad data, computing distances, destroying in any order that outlives its users) reads or writes memory out of bounds, after its release or before initialization, releases twice, or otherwise has undefined behaviour.",
  ["inputs", "histories"], "all supported operation sequences and inputs",
  "The tests run without sanitizers and do not exercise copies, early destruction, damaged input or extreme bounds.",
  ["src/liblevenshtein"], ["ownership of nodes by the dictionary, of positions by states, of intersections by queries"],
  "AddressSanitizer + UBSan + libstdc++ assertions over all drivers; valgrind on the plain build", "Every driver's workload is rerun instrumented, plus lifecycles under valgrind. Only what the sanitizers report counts here.")
p("C18", "Nothing is leaked: memory and descriptors are given back",
  "Repeating any supported sequence of operations, whether it runs to completion, is abandoned in the middle or fails, leaves no more memory allocated and no more files open than before. What an object allocated is released when it is destroyed.",
  ["histories", "inputs"], "all scenarios, including abandoned queries, refused additions, failed loads and failed saves",
  "The tests end their process without looking at what is still allocated.",
  ["src/liblevenshtein"], ["destructors and cleanup on failure paths"],
  "allocation-counting monitor over repeated scenarios", "Counts live blocks, bytes and descriptors after each repetition of 14 kinds of scenarios; growth is a leak.")
p("C19", "Queries are pruned and lazy",
  "The work of a query depends on the part of the dictionary near the query, not on the whole: adding terms far from the query term does not make it more expensive beyond a small factor. Results are produced on demand, so that taking the first ones does not cost as much as enumerating all.",
  ["inputs"], "all dictionaries with many terms far from the query",
  "The tests look at results only; a query that scans the whole dictionary passes them.",
  [TRA + "lazy_query.cpp", TRA + "state_transition.cpp", TRA + "position_transition.cpp", TRA + "merge.cpp"], ["dead states cut off whole subtrees", "iterators advance one result at a time"],
  "runtime work monitor (allocations and steps) relative to the viable part", "Self-relative measure with a wide allowance; large regressions only.")
p("C20", "Automaton states keep their positions as an ordered list",
  "A state behaves as a list of positions under any sequence of inserting, removing, sorting and traversing: nothing is lost, duplicated or reordered, and sorting yields a stable ordered permutation. Merging adds a position where the order requires, and the distance of a state is the minimum over its positions of errors plus remaining letters, or none beyond the bound.",
  ["histories", "inputs"], "all sequences of list operations on a state",
  "The tests insert and iterate a few positions.",
  [TRA + f for f in ("state.cpp", "state.h", "state_iterator.cpp", "position.cpp", "comparator.cpp", "merge.cpp", "distance.cpp")], ["singly linked list with insertion before, after and at the head, and merge sort"],
  "runtime model monitor (vector of positions) under ASan/UBSan", "Every list is compared with the model after each operation.")
p("C21", "A dictionary node is a finite map from labels to nodes",
  "Adding an edge under a label makes exactly that label lead to exactly that node, replacing an earlier one and leaving the others; looking up an absent label yields none, and visiting the edges yields each exactly once. A path of labels spells exactly the bytes it was made from.",
  ["histories", "inputs"], "all sequences of edge operations over all 256 labels",
  "The tests add a handful of ASCII labels.",
  [COL + f for f in ("dawg_node.cpp", "dawg_node.h", "prefix.cpp", "transition.cpp")], ["ordered container of edges"],
  "runtime model monitor (map) under ASan/UBSan", "The node is compared with a map after each operation.")
p("C22", "Sessions of the demo program answer exactly and survive restarts",
  "Over any history of sessions of the demo program, each query is answered with exactly the terms within the bound and their distances, from the saved dictionary if there is a usable one and otherwise from the text file. A session that ends normally, by an empty line or the end of its input, leaves a saved dictionary the next one uses; a session killed, or one whose save was cut short, never makes a later session fail or answer wrongly.",
  ["histories", "crash_points", "inputs"], "all histories of sessions with ends, kills and torn saves",
  "The demo test runs one session per algorithm with one fixed query.",
  ["example/src/main.cpp", SER + "serializer.cpp", COL + "sorted_dawg.cpp", TRA + "transducer.cpp"], ["load, else build; query loop; save at the end"],
  "end-to-end history monitor with kills and torn saves, against an independent model", "The real program is driven through pipes; a Python model predicts every answer.")
p("C23", "The saved format is the published one, in both directions",
  "What is saved is a message of the published format whose size, root, edges and final nodes spell exactly the dictionary's terms, and any valid message of that format, from any writer (other node ids, field orders, unknown fields, packed or not, minimal or not), loads as the dictionary it spells. Files saved by earlier versions still load.",
  ["inputs", "configurations"], "all dictionaries and all valid encodings of them",
  "The tests only read what the same build wrote.",
  [SER + "serializer.cpp", "proto/liblevenshtein.proto"], ["the protobuf schema and the conversion to and from it"],
  "runtime conformance monitor with an independent encoder and decoder, and golden files", "An independent wire-format implementation decodes what is written and writes what is read; golden files come from the original commit.")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({k: x[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": x["id"], "quick_cmd": "VERIF_TIER=quick python3 check.py " + x["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + x["id"],
                 "evidence_file": "evidence/%s.json" % x["id"], "technique": x["technique"], "level": x["level"], "level_note": x["note"]} for x in P],
     "not_applicable": [],
     "notes": "No hooks in /repo: the monitors use the public headers, the built library and the demo program. Defects found and repaired are listed in known_findings.txt."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
