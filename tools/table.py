HOOK_COMMITS = ["e4951cc"]
PS = "src/include/pdaaal/internal/PdaSaturation.h"; PA = "src/include/pdaaal/internal/PAutomaton.h"; PAA = "src/include/pdaaal/internal/PAutomatonAlgorithms.h"
PROD = "src/include/pdaaal/PAutomatonProduct.h"; SOLVER = "src/include/pdaaal/Solver.h"; INST = "src/include/pdaaal/SolverInstance.h"
WORK = "src/include/pdaaal/utils/workset.h"; IPDA = "src/include/pdaaal/internal/PDA.h"; PDA = "src/include/pdaaal/PDA.h"; PAUT = "src/include/pdaaal/PAutomaton.h"
def A(files, state=(), mech=(), observe=(), hook=False):
    return {"files": list(files), "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": hook}
def P(id, title, statement, over, text, why, anchors, technique, note):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors, "technique": technique, "note": note}
SCHED = "seeded simulation of the worklist schedule, heap layout and hash seed against a reference model"
TABLE = [
P("P01", "Every solver gives the true reachability verdict under every schedule",
  "For every pushdown system and every pair of initial and target configuration sets, post*, pre*, and dual search (with or without early termination, on unweighted and weighted systems, with every trace type) answer yes exactly when some target configuration is reachable from some initial one. The verdict does not depend on the order in which pending edges are processed, on the memory layout or on hash seeds, and every search terminates.",
  ["inputs", "schedules"], "all pushdown systems and configuration sets; all processing orders of pending work; all heap layouts and hash seeds",
  "the tests fix a few systems and run each in the single order the current worklist happens to give; the guarantee is over all systems and all processing orders",
  A([PS, PAA, PROD, SOLVER, INST, PA, IPDA], [("_workset", "edges waiting to be processed", PS), ("_edges", "saturated automaton", PA)], [("PreStarSaturation / PostStarSaturation", PS), ("product construction", PROD)], ["Solver::pre_star_accepts, post_star_accepts, dual_search_accepts return values", "Solver::*_no_result variants"], True),
  SCHED, "500k seeded runs; verdicts of all searches compared with a naive saturation on generated systems"),
P("P02", "Every reported trace is a real run from an initial to a target configuration",
  "Whenever a search answers yes, the trace it gives starts in an initial configuration, ends in a target configuration, and each step is one application of an existing rule; the rule-trace form names existing rules that replay to the reported final stack, with automaton paths that accept the reported stacks. This holds for every search direction, trace type and processing order, and no trace is given when the answer is no.",
  ["inputs", "schedules"], "all pushdown systems and configuration sets; all processing orders; heap layouts and hash seeds",
  "a trace is assembled from annotations left by whichever derivation came first, so it changes with the processing order; tests see one order and mostly compare lengths",
  A([SOLVER, PS, PA, PAA, PROD, INST], [("trace annotations", "how each derived edge came about", PA)], [("trace reconstruction", SOLVER)], ["Solver::get_trace, get_rule_trace_and_paths"], True),
  SCHED, "500k seeded runs; each trace is replayed step by step in the reference semantics"),
P("P03", "Shortest-trace searches return the minimum weight and a run that has it",
  "With non-negative weights (integers, floating point, or fixed- and variable-length vectors compared lexicographically), every shortest-trace search reports the minimum total weight over all runs from an initial to a target configuration, and its trace is a real run of exactly that weight; for early-terminating, full, forward, backward and dual search alike, under every processing order of equal-weight work.",
  ["inputs", "schedules"], "all weighted pushdown systems and configuration sets; all orders among ties; heap layouts and hash seeds",
  "optimality quantifies over all runs of an infinite system and ties are resolved by the schedule; tests pin single values of a few systems",
  A([PS, PROD, PAA, SOLVER, "src/include/pdaaal/Weight.h"], [("edge weights", "weight of the best known derivation", PA)], [("priority order", PS), ("early termination bound", PROD)], ["Solver::get_trace<Shortest>", "returned weights"], True),
  SCHED, "500k seeded runs; weights compared with the exact optimum of the reference and traces re-weighed"),
P("P04", "Fixed-point searches report exact optimum or divergence for signed weights",
  "With signed or unsigned scalar weights (integers or floating point), shortest and longest fixed-point searches report the exact minimum (maximum) total weight when it is finite, and infinity exactly when runs of unboundedly small (large) weight exist; an unreachable target is reported as such, and a finite answer comes with a real run of that weight.",
  ["inputs", "schedules"], "all signed weighted systems, including negative and positive cycles; all processing orders within a round",
  "divergence is a property of all runs; the round-limited iteration must be exact for every system and order, while tests fix a handful of weights",
  A([PS, WORK, SOLVER, PAA, "src/include/pdaaal/Weight.h"], [("_round_limit / _rounds", "when changes start to mean divergence", WORK)], [("fixed_point_workset", WORK)], ["Solver::*_fixed_point accepts and get_trace with trace types ShortestFixedPoint and Longest"], True),
  SCHED, "500k seeded runs; compared with the reference optimum incl. infinite ones"),
P("P05", "An interrupted search leaves everything sound and can be repeated",
  "Whenever a search is cut short - by an allocation that fails anywhere while systems, automata and instances are built, searched or turned into traces, by a callback that asks to stop or throws at any edge, or by a caller that steps a saturation and abandons it - nothing is leaked or corrupted, the automaton keeps all configurations it accepted and accepts no configuration that the complete search would not, a callback that asks to stop is obeyed and each derived edge is reported to it (exactly once in unweighted order), the failure reaches the caller as the exception it is, and repeating the search on a new instance, or completing it on the automaton that survived, gives the exact verdict and real traces.",
  ["fault_sequences", "schedules", "inputs"], "all systems; a failing allocation, stopping or throwing callback, or abandonment at any point; all processing orders and all interleavings of stepped searches",
  "the tests never interrupt a search; the guarantee ranges over every point at which it can be interrupted",
  A([PS, PA, PROD, SOLVER, INST, PAA], [("_workset, _rel", "pending and processed edges", PS), ("_edges", "what has been derived so far", PA)], [("early termination", PS), ("emplace_edge", PA)], ["Solver::pre_star with a callback", "PAutomaton::accepts after the interruption", "bad_alloc at the caller"], True),
  "seeded simulation with failing allocations, stopping and throwing callbacks and abandoned searches against a reference model", "400k seeded runs, about half of them with an injected interruption"),
P("P07", "Clients that share a pushdown system do not affect each other",
  "Any number of clients working at the same time on one constant pushdown system - searching in any direction, with shortest traces, building automata from one shared expression, parsing, printing, and reading traces and membership from one shared finished answer - each get exactly the answer they get alone, for every interleaving, and the shared objects stay as they were; a failing allocation in one client does not affect the others.",
  ["schedules", "fault_sequences"], "all interleavings of 2-4 clients at allocations and worklist steps; a failing allocation in one of them",
  "the tests run one client; interference through hidden shared state shows only in some interleavings",
  A([PROD, SOLVER, PS, PA, PAA, IPDA, "src/include/pdaaal/NFA.h"], [("const pda_t& _pda", "the shared system", PROD)], [("const queries", PROD), ("no global mutable state", SOLVER)], ["answers of every client", "shared objects afterwards"], True),
  "seeded simulation of client interleavings (fibers) with failing allocations against a reference model", "300k seeded runs, preempted at allocations and worklist steps"),
P("P08", "Drawings show exactly the automaton they are given",
  "The dot text of a regular-expression automaton, of a set of configurations or of a product, printed before or after any search, has exactly one node per state with its shape, the start markers, and one arrow per edge with exactly its labels, negation, epsilon and weights (infinite ones marked as such), in every memory layout and processing order. A device that fills up or throws receives a prefix of it and the stream reports the failure; a printer callback that throws, a failing allocation, printing again, or several clients drawing the same object at once change neither the object nor any other drawing.",
  ["inputs", "schedules", "fault_sequences"], "all automata and searches; a device failing at any byte; a callback or allocation failing at any point; all interleavings of clients and heap layouts (names without quotation marks)",
  "tests print, if at all, to look at the output, never to a failing device and never with several clients",
  A([PA, "src/include/pdaaal/NFA.h", PROD, "src/include/pdaaal/utils/vector_printer.h"], [("states and edges", "what is drawn", PA)], [("to_dot", PA), ("to_dot", "src/include/pdaaal/NFA.h")], ["PAutomaton::to_dot, NFA::to_dot, automaton_to_dot, product_automaton_to_dot"], False),
  "seeded simulation of failing devices, callbacks, allocations and interleaved clients against a reference reading of the drawing", "150k seeded runs with device, callback and allocation faults"),
P("P09", "Reduction keeps every run to the terminal state",
  "Reducing a pushdown system for an initial and a terminal state removes only rules that no run from the initial state (empty stack) up to its first arrival in the terminal state can use, at every reduction level and in every processing order, and reports the number of rules before and after truthfully; reducing again stays sound. An allocation that fails during reduction leaves the system usable with every needed rule still there.",
  ["inputs", "schedules", "fault_sequences"], "all pushdown systems, initial and terminal states and the five levels; all processing orders of pending states; a failing allocation at any point",
  "which rules are removed depends on the order in which top-of-stack information is propagated; no test reduces a system at all",
  A(["src/include/pdaaal/internal/Reducer.h", IPDA], [("_waiting, _tos", "top-of-stack information per state", "src/include/pdaaal/internal/Reducer.h")], [("Reducer::reduce", "src/include/pdaaal/internal/Reducer.h")], ["Reducer::reduce return value", "rules left in the system", "reachability of the terminal state before and after"], True),
  "seeded simulation of the reduction worklist with failing allocations against a reference exploration of runs", "500k seeded runs; rules used by explored runs must survive"),
P("P10", "Solving by abstraction and refinement gives the concrete answer",
  "For every pushdown system whose states and labels are merged by any initial abstraction (accepting states kept apart from the others), solving by abstraction and refinement answers yes exactly when the target is reachable in the concrete system, and gives a concrete run in that case, whichever abstract counterexample is picked, in every search direction and with both refinement strategies; it ends after at most as many refinements as there are states and labels, each of which splits the abstraction further. A failing allocation or user callback reaches the caller, leaves nothing behind and does not affect a retry.",
  ["inputs", "schedules", "fault_sequences"], "all pushdown systems with explicit and wildcard rules, all initial abstractions and regular sets of stacks; all abstract counterexamples (processing orders); a failing allocation or callback at any point",
  "each refinement depends on the abstract counterexample the schedule happens to give, so the tests follow a single path through the refinement loop for one hand-written problem",
  A(["src/include/pdaaal/cegar/CegarPdaFactory.h", "src/include/pdaaal/cegar/Refinement.h", "src/include/pdaaal/cegar/AbstractionMapping.h", "src/include/pdaaal/cegar/AbstractionPDA.h", "src/include/pdaaal/cegar/AbstractionPAutomaton.h", INST], [("label and state abstraction", "which concrete values an abstract one stands for", "src/include/pdaaal/cegar/AbstractionMapping.h"), ("header", "what is known of the concrete stack", "src/include/pdaaal/cegar/CegarPdaFactory.h")], [("CEGAR::cegar_solve", "src/include/pdaaal/cegar/CegarPdaFactory.h"), ("make_refinement", "src/include/pdaaal/cegar/Refinement.h")], ["CEGAR::cegar_solve result", "refinements handed to the factory"], True),
  "seeded simulation of the refinement loop under chosen schedules, failing allocations and callbacks against a reference model of the concrete problem", "300k seeded runs; verdict, concrete run and number of refinements compared with the concrete problem"),
P("P11", "A regular expression's automaton accepts exactly the expression's language",
  "An automaton built from a regular expression - by any history of construct, concatenate, alternate, star, plus, option, copy, assign and move operations, or from text - accepts exactly the words the expression describes, in every memory layout, and its label and successor queries agree with its language. Text is accepted exactly when it is well-formed (truncated or damaged text is rejected with an error), and a failing allocation or label callback in the middle leaves nothing behind and does not affect a retry.",
  ["inputs", "histories", "fault_sequences"], "all expressions, construction histories and texts; failing allocation or callback at any point; all heap layouts (states are ordered by address)",
  "states are sorted by their heap address, so behaviour depends on the allocator; tests parse a few well-formed expressions in one layout and never fail an allocation",
  A(["src/include/pdaaal/NFA.h", "src/include/pdaaal/parsing/NfaParser.h", "src/include/pdaaal/parsing/NfaParser.cpp", "src/include/pdaaal/parsing/NfaParserGrammar.h"], [("_initial, _accepting, _states", "the automaton", "src/include/pdaaal/NFA.h")], [("follow_epsilon, successor", "src/include/pdaaal/NFA.h"), ("grammar actions", "src/include/pdaaal/parsing/NfaParser.h")], ["acceptance of words by stepping", "NfaParser::parse_string"], False),
  "seeded simulation of heap layout, failing allocations and callbacks and damaged text against a reference matcher", "500k seeded runs with allocation, callback and byte faults"),
P("P12", "Sets of configurations mean exactly what their description says",
  "An automaton describing a set of configurations - a single configuration, states combined with a regular expression, unions of those, weighted edges, or text - accepts exactly the configurations of its description, in every memory layout and label order; its emptiness, membership, accepting-path and shortest-path queries, copies and printed form all agree with it. Text is accepted exactly when it is well-formed and names existing states, and a failing allocation leaves nothing behind.",
  ["inputs", "histories", "fault_sequences"], "all descriptions and texts; all orders in which labels were inserted; a failing allocation at any point; heap layouts and hash seeds",
  "tests use a few texts with labels inserted in sorted order and never damage the text or fail an allocation",
  A([PA, PAUT, "src/include/pdaaal/NFA.h", "src/pdaaal-bin/parsing/PAutomatonParser.h"], [("_states, _initial, _accepting", "the automaton", PA)], [("construct from NFA", PA), ("or_extend", PA), ("grammar actions", "src/pdaaal-bin/parsing/PAutomatonParser.h")], ["PAutomaton accepts, accept_path, find_path, to_json", "PAutomatonParser::parse_string"], False),
  "seeded simulation of heap layout, hash seed, failing allocations and damaged text against a reference acceptor", "400k seeded runs with allocation and byte faults"),
P("P13", "Containers behave as sets, maps and paths for every history and fault",
  "The tuple sets and maps (hash and vector based), sorted vector sets and maps, path sequences and interning containers give the same answers as mathematical sets, maps and sequences after every history of inserts, assignments, lookups, conversions, copies and moves, in every hash seed and memory layout. Iteration meets each element exactly once (in order where promised), and an allocation that fails inside an operation leaves all other elements intact and usable.",
  ["histories", "fault_sequences"], "all operation histories up to 33 operations; a failing allocation at any point; all hash seeds and heap layouts",
  "tests run one fixed history per container in one layout and never fail an allocation",
  A(["src/include/pdaaal/utils/fut_set.h", "src/include/pdaaal/utils/vector_set.h", "src/include/pdaaal/utils/more_algorithms.h", "src/include/pdaaal/AutomatonPath.h", "src/include/pdaaal/utils/ptrie_interface.h"], [("elems", "stored elements", "src/include/pdaaal/utils/vector_set.h")], [("lower_bound insertion", "src/include/pdaaal/utils/vector_set.h")], ["emplace, insert_or_assign, get, contains, iteration, conversion constructors"], False),
  "seeded simulation of operation histories with failing allocations against map and sequence models", "500k seeded histories with allocation faults"),
P("P14", "Saved problems mean what they say and damaged ones are rejected",
  "A reachability problem written as a document - one instance, or a pushdown system and two automata in separate files, as JSON text or MessagePack, with named or numbered states and any of the five weight types, in any member order and layout and with additional properties where the format allows them - is read back with exactly the states, labels, rules, weights and configuration sets it describes and answers accordingly, and what the library prints reads back the same, however the bytes arrive. A document that ends early, has bytes lost or changed, lacks a required part, repeats one, or holds a value of the wrong shape or out of range is rejected with an error message; nothing is silently dropped, misread or left behind, also when an allocation fails while reading.",
  ["inputs", "fault_sequences"], "all instances and all ways of writing them; truncation, I/O errors, byte and structural damage, chunking of the stream and a failing allocation at any point",
  "the tests read a few well-formed documents from memory; readers are chains of handlers whose mistakes show only in particular orders, nestings or damaged documents",
  A(["src/pdaaal-bin/parsing/SolverInstanceJsonParser.h", "src/pdaaal-bin/parsing/PdaJsonParser.h", "src/pdaaal-bin/parsing/PAutomatonJsonParser.h", "src/pdaaal-bin/parsing/SaxHandlerDispatch.h", "src/include/pdaaal/utils/SaxHandlerHelpers.h", "src/include/pdaaal/utils/flags.h", PDA, PAUT, PROD], [("_context_stack, last_key", "where in the document the reader is", "src/include/pdaaal/utils/SaxHandlerHelpers.h")], [("handler dispatch", "src/pdaaal-bin/parsing/SaxHandlerDispatch.h"), ("required-key masks", "src/include/pdaaal/utils/flags.h")], ["SolverInstanceJsonParser::parse, PdaJsonParser::parse, PAutomatonJsonParser::parse", "to_json"], False),
  "seeded simulation of an unreliable byte stream and damaged documents against a reference reader", "250k seeded documents, 60% of them with a fault"),
P("P15", "Problems compiled by a factory mean what their description says",
  "A problem given by a factory - states discovered on demand, all rules added up front, or labels abstracted - with initial and accepting states in any numbering and regular sets of stacks compiles to an instance that has the verdict, a real run and (when weighted) the minimum weight of the described problem in every search direction; on-demand factories are asked for the rules and acceptance of each reachable state exactly once and of no other. Instances can be moved before and after solving and keep their answers, and a failing allocation or factory callback while compiling reaches the caller and leaves nothing behind.",
  ["inputs", "histories", "fault_sequences"], "all described problems, state numberings and discovery orders; instances moved at any point of their life; a failing allocation or callback at any point",
  "tests compile one factory with consecutively numbered states, all of which have rules, use the instance where it was created, and never fail",
  A(["src/include/pdaaal/PDAFactory.h", INST, PROD, "src/include/pdaaal/cegar/CegarPdaFactory.h", "src/include/pdaaal/cegar/AbstractionSolverInstance.h"], [("_pda, _product", "the compiled problem and its product, which refers to it", INST)], [("PDAFactory::compile, build_pda", "src/include/pdaaal/PDAFactory.h"), ("move of SolverInstance", INST)], ["PDAFactory::compile", "Solver answers on the compiled instance"], True),
  "seeded simulation of factories with failing allocations and callbacks, exploration orders and moved instances against a reference model", "300k seeded runs over three kinds of factory"),
P("P16", "Reports are well-formed JSON with exactly the entries written to them",
  "Whatever history of entries, nested objects and closings is written to a report stream - keys and values of every kind, in any indentation - the text is a sequence of well-formed JSON documents with exactly those entries, in order and at their place. An entry that cannot be written (undecodable text, failing allocation) fails with an error and leaves no trace in the text. When the output device fills up or throws, what was written is a prefix of the report, the stream shows the failure, and nothing leaks or terminates the program.",
  ["histories", "fault_sequences"], "all histories of up to 14 operations; an output device that fails or throws at any byte; undecodable values and failing allocations at any operation",
  "no test uses the stream; separators and closings depend on the whole history, and failures strike in the middle of an entry",
  A(["src/pdaaal-bin/utils/json_stream.h"], [("start_obj, start, indentation", "what has to be written before the next entry", "src/pdaaal-bin/utils/json_stream.h")], [("entry, begin_object, end_object, close", "src/pdaaal-bin/utils/json_stream.h")], ["text on the output stream", "state of the output stream", "exceptions"], False),
  "seeded simulation of report histories on a failing output device with failing allocations against a reference document", "500k seeded histories, a third of them with a fault"),
P("P17", "A measured duration is the time that passed while the stopwatch ran",
  "After any history of starts, stops (also repeated ones), copies and readings, the duration of a stopwatch is the sum of the periods in which it was running - up to now if it is running - never negative and unaffected by wall-clock adjustments in either direction, stalls, and the starting point of the clock.",
  ["histories", "fault_sequences"], "all histories of up to 25 operations on up to 6 stopwatches under a simulated clock with jumps and stalls between any two of them",
  "a test cannot set the clock or wait for hours; wrong durations show only when the clock jumps or laps accumulate",
  A(["src/pdaaal-bin/utils/stopwatch.h"], [("_start, _stop, _running", "when it ran", "src/pdaaal-bin/utils/stopwatch.h")], [("start, stop, duration", "src/pdaaal-bin/utils/stopwatch.h")], ["stopwatch::duration, running"], False),
  "seeded simulation of the clock (jumps, stalls) under stopwatch histories against a reference stopwatch", "500k seeded histories; all clock sources are simulated"),
P("P18", "The command-line tool reports the truth or fails, whatever its machine does",
  "The tool, given a problem as one instance (JSON or MessagePack, from a file or standard input) or as a pushdown system (from a file or standard input) and two automata in separate files (as JSON or as text), with any engine, trace type, weight type and order of options, exits successfully only with a well-formed report holding the true verdict, the optimal weight (or that it is infinite) where one is asked for, a real run as trace, and durations that contain the time spent reading (parsing) and no time spent on output (solving). Files it writes hold the same problem and are accepted by it. If an input cannot be opened, read or mapped or is cut off, or if the report or a requested file cannot be written or closed, it exits with failure and a message, as it does for options and option values it does not know or support; short reads and writes, signals, latency and clock adjustments change nothing, a file torn by a crash is not accepted, and running it again after a crash works.",
  ["inputs", "fault_sequences"], "all problems and ways to pass them; a failing open, read, mapping, write, close, report device, torn input or crash at any byte; arbitrary splitting of I/O, signals, latency and clock settings",
  "no test runs the tool; failures of disks and devices cannot be provoked at chosen points by a unit test",
  A(["src/pdaaal-bin/main.cpp", "src/pdaaal-bin/Verifier.h", "src/pdaaal-bin/parsing/Parsing.h", "src/pdaaal-bin/parsing/Parsing.cpp", "src/pdaaal-bin/parsing/SolverInstanceJsonParser.h", "src/pdaaal-bin/parsing/PAutomatonParser.h", SOLVER], [("parsing_stopwatch, output files", "what the report and the files are made from", "src/pdaaal-bin/main.cpp")], [("run, do_output", "src/pdaaal-bin/main.cpp"), ("Verifier::verify", "src/pdaaal-bin/Verifier.h")], ["exit status", "standard output and error", "files written"], False),
  "seeded simulation of the whole tool on a simulated disk, standard streams and clock with I/O faults and crashes against a reference model", "150k seeded invocations of the real main() on a simulated disk"),
P("P19", "Abstractions and their refinements stay consistent",
  "Mappings from concrete to abstract values agree in both directions after every history of insertions, lookups, refinements and failures: every inserted value has exactly one abstract value, which lists it, and numbers are consecutive and never change except by refinement. Combining splits keeps every element in exactly one part and apart from every element it was ever split from; separating good from bad pairs tells each of them apart (the fast strategy: at least one), also with wildcard rules; refining a mapping splits exactly the parts it names and leaves unnamed values where they were. An allocation or mapping function that fails reaches the caller, loses nothing, and can be retried.",
  ["histories", "inputs", "fault_sequences"], "all histories of insertions, queries and refinements; all separation problems; a failing allocation or mapping function at any point; all hash seeds and heap layouts",
  "the tests combine and separate a few hand-picked sets; a lost or merged element shows only for particular overlaps or after a failure",
  A(["src/include/pdaaal/cegar/Refinement.h", "src/include/pdaaal/cegar/AbstractionMapping.h"], [("_many_to_one_map, _one_to_many_ids", "the two directions of a mapping", "src/include/pdaaal/cegar/AbstractionMapping.h"), ("_partitions", "parts of a refinement", "src/include/pdaaal/cegar/Refinement.h")], [("Refinement::combine, make_refinement", "src/include/pdaaal/cegar/Refinement.h"), ("RefinementMapping::refine", "src/include/pdaaal/cegar/AbstractionMapping.h")], ["insert, exists, get_concrete_values, maps_to, refine, combine, make_refinement"], False),
  "seeded simulation of mapping and refinement histories with failing allocations and callbacks against reference partitions", "500k seeded histories with allocation and callback faults"),
P("P20", "A pushdown system holds exactly the rules that were added to it",
  "After any history of adding labels, states and rules (single, for a set of labels, or for all labels; typed or by id), of copying, moving, clearing a state or converting from hash to vector storage, the system lists exactly the rules that were added, once each, with the states and labels they were added with, and its predecessor index and JSON form agree. Adding a rule whose allocation fails loses no other rule and leaves the system usable.",
  ["histories", "fault_sequences"], "all histories of up to 16 additions; all label insertion orders; a failing allocation at any point; hash seeds and heap layouts",
  "tests add rules in one order with labels known in advance and never fail an allocation",
  A([IPDA, "src/include/pdaaal/internal/PDA.cpp", PDA], [("_states[i]._rules, _pre_states", "rules and predecessor index", IPDA), ("_label_map", "label ids", PDA)], [("labels_t::merge", "src/include/pdaaal/internal/PDA.cpp"), ("add_untyped_rule_impl", IPDA)], ["PDA::states, all_rules, to_json, exists_label, exists_state"], False),
  "seeded simulation of addition histories with failing allocations against a reference rule set", "500k seeded histories with allocation faults"),
]
PURE = "deterministic simulation decides how a system behaves under schedules, faults, time and histories; this is a pure function of its arguments with no state, allocation that can leave something behind, clock, I/O or other party, so every simulated run of it would be the same single call (its effect on searches is decided by "
NOT_APPLICABLE = [
{"prop": P("P06", "Weight addition and comparison form an ordered monoid with saturation",
  "For every weight type, addition is associative and commutative with zero as neutral element and saturates instead of overflowing, and comparison is a total order compatible with addition (lexicographic with implicit trailing zeros for vectors).",
  ["inputs"], "all pairs and triples of weights of every type", "tests compare a few sums of small weights",
  A(["src/include/pdaaal/Weight.h"], [], [("weight_impl::add, less", "src/include/pdaaal/Weight.h")], ["min_weight<W>::add, less", "max_weight<W>::add, less"], False), "", ""),
 "reason": PURE + "P03, P04 and P18)"},
]
