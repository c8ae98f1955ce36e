"""What each check runs, and what its monitors must have observed."""
import os

VERIF = os.path.dirname(os.path.abspath(__file__))

RANDOM = "Case i of seed s is generated from a PRNG stream of (s, i), the first cases are exhaustive small universes where the driver has them. "
TRUST = ["gcc 13's code generation and runtime", "the oracles in harness/common.h (forward dynamic programming over the whole matrix), which share no code with the library"]


def make(ck, prop):
    Job = ck.Job
    q, d, s, c, w, t, l = "query", "dict", "serial", "conc", "dist", "state", "life"
    golden = ("--golden", os.path.join(VERIF, "golden"))
    S = {}

    for i, (pid, name) in enumerate((("C01", "standard"), ("C02", "transposition"), ("C03", "merge-and-split"))):
        S[pid] = dict(
            jobs=[Job(q, "exact", 12000, 60000, opts=("--alg", str(i)), shards=16)],
            evaluations=["queries"], must=["queries", "exhaustive_queries", "results", "term_verdicts", "huge_dictionaries", "very_long_queries", "wide_queries", "queries_of_one_transducer"],
            rule=RANDOM + "A case is one dictionary and many queries with the %s algorithm; every term of the dictionary is judged in every query. "
                 "Non-trivial: the dictionary is not empty, counted by distinct (dictionary, query, bound) with at least one term judged." % name)
    S["C04"] = dict(
        jobs=[Job(q, "formats", 9000, 90000, shards=16)],
        evaluations=["pairs_compared", "monotonicity_checks", "default_distance_queries"],
        must=["pairs_compared", "monotonicity_checks", "default_distance_queries", "results"],
        rule=RANDOM + "A case compares the two result formats, the default bound, the lower-level query interface and growing bounds on one dictionary. Non-trivial: some result was produced.")
    S["C05"] = dict(
        jobs=[Job(q, "isolation", 12000, 120000, shards=16), Job(q, "isolation", 1200, 10000, variant="asan", shards=8)],
        evaluations=["iterator_steps"], must=["histories", "iterator_copies", "iterator_assignments", "transducer_copies", "transducer_assignments", "term_iterators_opened", "long_histories", "iterators_abandoned", "max_open_iterators", "range_copies", "queries_in_later_lives", "dictionaries_in_succession"],
        rule=RANDOM + "A case is a random interleaving of opening, advancing, copying, assigning and abandoning iterators of several queries and transducers; each iterator's stream is compared with the same query run alone. Non-trivial: at least two iterators were open together.")
    S["C06"] = dict(
        jobs=[Job(c, "queries", 3000, 60000, opts=("--proto", "1"), shards=4), Job(c, "queries", 480, 9000, variant="tsan", shards=4)],
        evaluations=["operations"], must=["operations", "histories", "thread_switches", "monitored_by_tsan", "results", "histories_large_dictionaries", "histories_long_terms", "histories_long"],
        rule=RANDOM + "A case is one history of 2 to 8 threads sharing a dictionary and transducers; every operation's result is compared with the sequential one, and ThreadSanitizer watches all accesses. Non-trivial: distinct observed orders of the threads' operations with at least one switch.",
        assumptions=["ThreadSanitizer sees the library and the driver; libprotobuf is not instrumented, so loading and saving are part of the plain runs only"])
    S["C07"] = dict(
        jobs=[Job(d, "content", 40000, 500000, shards=16)],
        evaluations=["membership_probes", "terms_iterated"], must=["dictionaries", "exhaustive_subsets", "membership_probes", "terms_iterated", "dictionaries_from_duplicates", "oversized_probes", "dictionaries_in_succession"],
        rule=RANDOM + "A case builds one dictionary from a term list and compares size, iteration and membership (members, prefixes, extensions, splices, edits, random strings) with the set. Non-trivial: not empty, counted by distinct term sets.")
    S["C08"] = dict(
        jobs=[Job(d, "order", 60000, 600000, shards=16)],
        evaluations=["additions", "late_operations"], must=["additions_out_of_order", "removals", "operations_after_finish", "exhaustive_sequences", "sorted_sequences", "unsorted_sequences", "late_operations", "sequences"],
        rule=RANDOM + "A case offers one sequence of terms, sorted or not, with late additions; each answer and the final content are compared with a model of the sequence. Non-trivial: counted by distinct sequences of at least two terms.")
    S["C09"] = dict(
        jobs=[Job(d, "graph", 40000, 400000, shards=16)],
        evaluations=["nodes_visited", "edges_visited"], must=["graphs", "exhaustive_subsets", "nodes_visited", "edges_visited", "built_with_refused_terms"],
        rule=RANDOM + "A case walks the whole graph of one dictionary and checks acyclicity, that every node is co-reachable, that no two nodes have equal right languages and that the node count equals the number of distinct right languages of the set. Non-trivial: at least two nodes.")
    S["C10"] = dict(
        jobs=[Job(d, "equality", 2000, 24000, shards=16)],
        evaluations=["equal_pairs", "unequal_pairs", "node_pairs"], must=["equal_pairs", "unequal_pairs", "node_pairs", "dictionaries_in_succession"],
        rule=RANDOM + "A case compares pairs of dictionaries (equal, nearly equal, rebuilt, reloaded) and pairs of nodes for equality and hash consistency against the sets they represent. Non-trivial: distinct pairs with at least one term.")
    S["C11"] = dict(
        jobs=[Job(s, "roundtrip", 12000, 120000, shards=16)],
        evaluations=["saves"], must=["saves", "second_generation", "cross_process", "queries_on_loaded", "overwrites", "unusual_paths", "pipes", "slow_streams"],
        rule=RANDOM + "A case saves one dictionary by each interface (streams, three kinds of paths), loads it here and in another process, compares content, queries and a second generation. Non-trivial: not empty, counted by distinct term sets.")
    S["C12"] = dict(
        jobs=[Job(s, "damage", 3000, 40000, shards=16), Job(s, "damage", 150, 3000, variant="asan", shards=8)],
        evaluations=["torn_inputs", "torn_files", "damaged_inputs", "impossible_messages"],
        must=["torn_inputs", "torn_files", "damaged_inputs", "impossible_messages", "refused", "accepted_coherent", "unreadable_sources", "lattices_refused", "monitored_by_asan_ubsan"],
        rule=RANDOM + "A case tears one saved dictionary at its byte positions, damages bytes and fields, and composes inconsistent messages; a load must refuse or yield a dictionary that is coherent. Non-trivial: counted by distinct damaged inputs.")
    S["C13"] = dict(
        level="fault_enumeration",
        jobs=[Job(s, "save", 640, 8000, shards=16)],
        evaluations=["stream_fault_points", "file_fault_points", "unwritable_places"],
        must=["stream_fault_points", "file_fault_points", "unwritable_places", "failures_reported", "successes_reported"],
        rule=RANDOM + "A case saves one dictionary with a fault injected at every byte of a stream, at many sizes of a file limited by RLIMIT_FSIZE, and at unwritable places (a missing directory, a directory, an empty name, /dev/full). Non-trivial: counted by distinct saved messages.",
        assumptions=["write errors surface as short or failed writes (full disk, limits); errors the kernel reports only at fsync are outside"])
    S["C14"] = dict(
        jobs=[Job(w, "exact", 40000, 1000000, shards=16)],
        evaluations=["distances"], must=["distances", "exhaustive_pairs", "nontrivial_distances", "fresh_instances", "long_pairs", "families_of_words", "very_long_pairs", "giant_pairs", "questions_to_long_serving_instances", "instances_in_succession"],
        rule=RANDOM + "A case asks one instance of each distance for many pairs in a random order with repetitions and compares with the oracle and with a fresh instance. Non-trivial: distinct pairs of different strings.")
    S["C15"] = dict(
        jobs=[Job(w, "metric", 80000, 800000, shards=16)],
        evaluations=["triples", "unordered_pairs", "invariances", "single_operations"],
        must=["triples", "exhaustive_triples", "triples_of_long_words", "words_far_apart", "long_affixes", "unordered_pairs", "single_operations", "invariances"],
        rule=RANDOM + "A case checks identity, symmetry, bounds, affix and renaming invariance and the triangle inequality on the values the library returns. Non-trivial: distinct triples of different strings.")
    S["C16"] = dict(
        jobs=[Job(c, "distance", 4800, 80000, shards=4), Job(c, "distance", 960, 16000, variant="tsan", shards=4)],
        evaluations=["operations"], must=["operations", "histories", "thread_switches", "monitored_by_tsan", "histories_long_words", "histories_long"],
        rule=RANDOM + "A case is one history of 2 to 8 threads sharing one instance of a distance and drawing overlapping pairs; every value is compared with the oracle, and ThreadSanitizer watches all accesses. Non-trivial: distinct observed orders of the threads' operations with at least one switch.")
    A = dict(variant="asan", shards=4)
    D = dict(variant="debug", shards=4)
    V = dict(valgrind=True, shards=4)
    S["C17"] = dict(
        crashes_only=True,
        jobs=[Job(q, "exact", 120, 1500, opts=("--alg", "0"), **A), Job(q, "exact", 120, 1500, opts=("--alg", "1"), **A), Job(q, "exact", 120, 1500, opts=("--alg", "2"), **A),
              Job(q, "formats", 120, 3000, **A), Job(q, "isolation", 160, 3000, **A),
              Job(d, "content", 400, 12000, **A), Job(d, "order", 400, 12000, **A), Job(d, "graph", 300, 8000, **A), Job(d, "equality", 60, 900, **A), Job(d, "node", 400, 12000, **A),
              Job(s, "roundtrip", 80, 2500, **A), Job(s, "damage", 60, 1500, **A), Job(s, "wire", 80, 2500, opts=golden, **A),
              Job(w, "exact", 400, 12000, **A), Job(w, "metric", 200, 5000, **A), Job(t, "state", 1500, 60000, **A),
              Job(q, "exact", 120, 1200, opts=("--alg", "0"), **D), Job(q, "exact", 120, 1200, opts=("--alg", "1"), **D), Job(q, "exact", 120, 1200, opts=("--alg", "2"), **D),
              Job(q, "isolation", 80, 1500, **D), Job(d, "content", 200, 4000, **D), Job(d, "order", 200, 4000, **D), Job(d, "graph", 200, 4000, **D), Job(d, "node", 200, 6000, **D),
              Job(w, "exact", 200, 6000, **D), Job(t, "state", 800, 30000, **D), Job(l, "life", 560, 20000, **D),
              Job(l, "life", 1400, 60000, **A), Job(l, "life", 56, 1400, **V)] +
             # reads before initialization, also inside libprotobuf and libstdc++: valgrind, past the exhaustive and the huge cases
             [Job(q, "exact", 16, 300, opts=("--alg", a, "--first", "500"), **V) for a in "012"] +
             [Job(q, "formats", 16, 400, **V), Job(q, "isolation", 16, 400, **V), Job(d, "content", 32, 900, opts=("--first", "80"), **V), Job(d, "order", 32, 900, opts=("--first", "200"), **V),
              Job(d, "graph", 24, 600, opts=("--first", "80"), **V), Job(d, "equality", 8, 100, opts=("--first", "60"), **V), Job(d, "node", 64, 2000, **V), Job(s, "roundtrip", 16, 400, opts=("--first", "24"), **V),
              Job(s, "damage", 4, 60, **V), Job(s, "wire", 16, 400, opts=("--first", "24"), **V), Job(w, "exact", 24, 400, opts=("--first", "500"), **V), Job(w, "metric", 16, 300, opts=("--first", "60"), **V), Job(t, "state", 120, 4000, opts=("--first", "3"), **V)],
        evaluations=["scenarios", "queries", "pairs_compared", "iterator_steps", "membership_probes", "additions", "nodes_visited", "node_pairs", "states_compared", "saves", "torn_inputs", "damaged_inputs", "messages_encoded", "distances", "triples", "list_operations"], must=["scenarios", "scenarios_observing_something", "queries", "damaged_inputs", "distances", "list_operations", "monitored_by_asan_ubsan", "monitored_by_debug_containers"],
        rule=RANDOM + "All drivers run in an AddressSanitizer and UndefinedBehaviorSanitizer build with libstdc++ assertions; samples of all drivers also run under valgrind on the ordinary build, and with libstdc++'s debug containers. Non-trivial: distinct cases of all drivers.",
        assumptions=["libprotobuf and libstdc++ are not instrumented; valgrind covers them"])
    S["C18"] = dict(
        jobs=[Job(l, "leak", 7000, 80000, extra="-DCOUNT_ALLOCATIONS", shards=16)],
        evaluations=["repetitions"], must=["repetitions", "scenarios", "allocations_watched", "series_of_different_inputs"],
        rule=RANDOM + "A case repeats one scenario (14 kinds) and watches what stays allocated and which descriptors stay open after each repetition. Non-trivial: the scenario allocated something.")
    S["C19"] = dict(
        jobs=[Job(q, "effort", 360, 7000, variant="steps", shards=16)],
        evaluations=["queries_measured"], must=["queries_measured", "allocations", "steps", "lazy_queries_with_many_results", "lazy_queries_on_dense_dictionaries", "partial_enumerations", "wide_bounds_measured", "funnels_measured"],
        rule=RANDOM + "A case measures the allocations and the basic blocks executed by one query on a small dictionary and on the same one with 12000 to 60000 far terms added, and of taking the first result only. Non-trivial: distinct queries measured.")
    S["C20"] = dict(
        jobs=[Job(t, "state", 600000, 6000000, shards=8), Job(t, "state", 80000, 800000, variant="asan", shards=8)],
        evaluations=["list_operations", "comparisons", "state_distances", "positions_merged"],
        must=["histories", "long_lists", "list_operations", "lists_compared", "removal_patterns", "sorts_exhaustive", "state_distances", "positions_merged", "comparisons", "monitored_by_asan_ubsan"],
        rule=RANDOM + "A case is a history of list operations on one automaton state compared with a vector of positions after each. Non-trivial: distinct histories that changed the list.")
    S["C21"] = dict(
        jobs=[Job(d, "node", 300000, 3000000, shards=8), Job(d, "node", 50000, 400000, variant="asan", shards=8)],
        evaluations=["states_compared", "equality_verdicts", "prefixes_spelled"], must=["edges_added", "edges_replaced", "edges_repeated", "targets_shared", "long_paths_spelled", "equality_verdicts", "prefixes_spelled", "states_compared", "monitored_by_asan_ubsan"],
        rule=RANDOM + "A case is a history of edge operations on one node compared with a map after each. Non-trivial: distinct histories.")
    S["C23"] = dict(
        jobs=[Job(s, "wire", 16000, 200000, opts=golden, shards=16)],
        evaluations=["messages_decoded", "messages_encoded", "golden_files"], must=["messages_decoded", "messages_encoded", "golden_files", "edges_decoded", "lattices_loaded", "unusual_encodings"],
        rule=RANDOM + "A case decodes one saved dictionary with an independent decoder and has the library load four independently encoded messages of the same set; once per run the files kept from the original version are loaded. Non-trivial: not empty, counted by distinct term sets.")

    if prop == "C22":
        import demo
        spec = dict(
            run=lambda: demo.run(ck),
            evaluations=["queries"],
            must=["sessions", "queries", "results", "sessions_from_saved_file", "sessions_after_torn_file", "sessions_killed", "sessions_from_text", "sessions_of_many_queries", "sessions_with_large_dictionaries", "sessions_with_long_words"],
            rule="Case i of seed s is a history of sessions of the demo program generated from (s, i): dictionaries, options, queries, ends of input, kills and torn saves. Non-trivial: distinct (dictionary, algorithm, bound, query) with at least one result.")
    elif prop in S:
        spec = S[prop]
    else:
        raise ck.CheckError("unknown property " + prop)
    spec.setdefault("level", "exploration")
    spec["assumptions"] = TRUST + spec.get("assumptions", [])
    return spec


ALL = ["C%02d" % i for i in range(1, 24)]
