# Which scenario decides which property, and how much of it a check runs.
REAL = ["all of the library and tool sources of /repo that the scenario names, unmodified, compiled with PDAAAL_SIMULATION"]
STUB = ["ptrie (a dependency that is not in this sandbox: replaced by an ordered-map stand-in with the same interface)", "heap allocator (deterministic arena)", "absl hash seed", "worklist order of the solver loops (guarded hook)"]
COMMON_ASSUMPTIONS = [
    "seeded sampling, not enumeration: a clean batch is evidence, not proof",
    "most generated instances are small and a few are large in one dimension (see the rule and DESIGN.md); a defect that needs larger ones is out of reach",
    "the reference models in /verif/sim/include are correct",
]
INSTANCE_RULE = "One run = one generated pushdown system (up to 5 states, 4 labels, about 20 rules incl. wildcards, initial and target sets given as automata), one heap layout, garbage pattern, hash seed and worklist schedule, all from one seed.  One run in 24 is large in one dimension: up to 72 labels, 48 states, 70 rules or stacks 36 deep; one in six has weights in the ten thousands."
PROPS = {
    "P01": dict(src=["p01.cpp"], runs=500000, rule=INSTANCE_RULE, must_hit=["probe.many_labels", "probe.many_states", "probe.many_rules", "probe.deep_stacks", "probe.reachable", "probe.unreachable"]),
    "P02": dict(src=["p02.cpp"], runs=500000, rule=INSTANCE_RULE, must_hit=["probe.shortest", "probe.fixed_point", "probe.many_labels", "probe.many_states", "probe.many_rules", "probe.deep_stacks", "probe.reachable", "probe.long_traces"]),
    "P03": dict(src=["p03.cpp"], runs=500000, rule=INSTANCE_RULE, must_hit=["probe.weights_beyond_32_bits", "probe.heavy_weights", "probe.many_labels", "probe.many_states", "probe.many_rules", "probe.deep_stacks", "probe.reachable", "probe.long_traces"]),
    "P04": dict(src=["p04.cpp"], runs=500000, rule=INSTANCE_RULE, must_hit=["probe.weights_beyond_32_bits", "probe.deep_stacks", "probe.finite", "probe.infinite", "probe.unreachable"]),
    "P05": dict(src=["p05.cpp"], runs=400000, rule="One run = one generated instance (up to 4 states, 3 labels; one in 30 large as in P01) with, by choice, a failing allocation at any point of a whole session (build, search, trace), failing allocations in searches and extractions whose data survive, a callback that stops or throws at any edge, or two saturations stepped in a random interleaving and abandoned.", must_hit=["probe.many_labels", "probe.many_states", "probe.many_rules", "probe.deep_stacks", "fault.alloc", "fault.callback_stop", "fault.callback_throw", "fault.abandoned", "probe.reachable", "probe.unreachable"]),
    "P07": dict(src=["p07.cpp"], runs=300000, rule="One run = 2-4 clients, each with 1-2 jobs (searches in three directions, shortest searches, reading traces and membership from shared finished answers, parsing, building, printing), on one shared pushdown system, preempted by the simulator at allocations and worklist steps; every client's answer is compared with the reference; a third of the runs fail an allocation in one client.", must_hit=["probe.many_labels", "probe.many_states", "probe.many_rules", "probe.deep_stacks", "fault.alloc", "sched.preemptions", "probe.reachable", "probe.unreachable"]),
    "P08": dict(src=["p08.cpp"], runs=150000, rule="One run = one expression automaton, automaton or product (before or after a search), drawn once to a working device and then to a device that fills up or throws at any byte, with a failing allocation, a printer that gives up, or by 2-3 interleaved clients, and then again, in one heap layout, hash seed and schedule.", must_hit=["probe.many_labels", "probe.many_states", "probe.many_rules", "probe.deep_stacks", "fault.write_error", "fault.callback", "probe.clients", "probe.several_labels", "probe.epsilon", "probe.infinite_weight"]),
    "P09": dict(src=["p09.cpp"], runs=500000, rule="One run = one generated pushdown system (3-6 states, 1-4 labels, up to 24 rules; one in 24: up to 42 states, 72 labels, 130 rules) with an initial and a terminal state, reduced once or twice at one of five levels, in one heap layout, hash seed and worklist schedule; a quarter of the runs fail an allocation first.", must_hit=["probe.large", "fault.alloc", "probe.reachable", "probe.unreachable", "probe.discriminating"]),
    "P11": dict(src=["p11.cpp"], runs=500000, rule="One run = one generated regular expression (depth up to 4, 2-3 labels), built by calls, by text or by damaged text, in one heap layout; failing allocations and throwing callbacks in about a quarter of the runs; compared on all words up to length 3 and some longer ones; one run in 24 has up to 78 labels or 43 parts and longer words.", must_hit=["probe.large", "fault.alloc", "probe.rejected_text"]),
    "P12": dict(src=["p12.cpp"], runs=400000, rule="One run = one set of configurations (single, regular expressions x states, unions, weighted edges, or text, damaged in half of the text runs) over up to 6 states and 3 labels (one run in 24: up to 40 states, 78 labels, stacks of 80) in one heap layout and hash seed; failing allocations in about a fifth of the runs.", must_hit=["probe.large", "fault.alloc", "probe.rejected_text", "probe.discriminating", "probe.edge_into_control_state"]),
    "P13": dict(src=["p13.cpp"], runs=500000, rule="One run = one history of 3 to 33 (one in 24: up to 400) operations on one container type in one heap layout and hash seed; a third of the runs inject failing allocations.", must_hit=["probe.hundred_elements", "probe.large", "fault.alloc"]),
    "P14": dict(src=["p14.cpp"], runs=250000, rule="One run = one reachability instance (up to 4 states, 3 labels, one in 30 large as in P01, five weight types, named or numbered states) written as one document or as three files, in JSON text or MessagePack, with 60% of the runs damaged: a structural change, lost, flipped, repeated or inserted bytes, a stream that ends or fails early, or a failing allocation; read through a stream with seeded chunk sizes, compared with a reference reader, printed, read back and solved.", must_hit=["probe.many_labels", "probe.many_states", "probe.many_rules", "probe.deep_stacks", "fault.structure", "fault.bytes", "fault.truncated", "fault.alloc", "probe.accepted", "probe.rejected", "probe.reachable", "probe.unreachable", "probe.extra_property"]),
    "P10": dict(src=["p10.cpp"], runs=300000, rule="One run = one pushdown problem (up to 5 states and 5 labels, one in 30 large in one dimension, explicit and wildcard rules, stacks given by regular expressions), one initial abstraction of states and labels, one search direction, one refinement strategy, in one heap layout, hash seed and worklist schedule (which decides the abstract counterexamples); a third of the runs first fail an allocation or a user callback.", must_hit=["probe.several_pops", "probe.many_labels", "probe.many_states", "probe.many_rules", "probe.deep_stacks", "probe.own_refinements", "fault.alloc", "fault.callback_throw", "probe.reachable", "probe.unreachable", "probe.many_rounds"]),
    "P15": dict(src=["p15.cpp"], runs=300000, rule="One run = one described pushdown problem (up to 6 states with shuffled, possibly sparse numbers, 4 labels, explicit and wildcard rules, three kinds of weights, stacks given by regular expressions) compiled by an on-demand, an eager or an abstracting factory in one exploration order, heap layout and hash seed, moved in half of the runs and solved; a third of the runs first fail an allocation or a callback.", must_hit=["probe.many_labels", "probe.many_states", "probe.many_rules", "probe.deep_stacks", "fault.alloc", "fault.callback_throw", "probe.reachable", "probe.unreachable", "probe.moved", "probe.moved_solved", "probe.partial", "probe.abstract_instance"]),
    "P16": dict(src=["p16.cpp"], runs=500000, rule="One run = one history of up to 14 (one in 24: 120) entries, objects and closings with keys and values of every kind, written to a device that works, fills up or throws at any byte, with undecodable text and failing allocations by choice, in one heap layout.", must_hit=["probe.large", "fault.alloc", "fault.write_error", "fault.undecodable", "probe.several_documents", "probe.prefix", "probe.empty_object"]),
    "P17": dict(src=["p17.cpp"], runs=500000, rule="One run = one history of up to 25 starts, stops, copies and readings of up to 6 stopwatches under a simulated clock that advances, stalls for hours, and jumps in both directions.", must_hit=["fault.stall", "fault.clock_jump_back", "fault.clock_jump_forward", "probe.laps", "probe.start_twice", "probe.stop_twice", "probe.copied"]),
    "P18": dict(src=["p18.cpp"], runs=150000, bin_src=["main.cpp", "parsing/Parsing.cpp"], bin_flags=["-Dmain=pdaaal_main", "-O0"], libs=["-Wl,--wrap=exit", "-ldl"], rule="One run = one invocation of the whole tool (plus a second one on what it wrote) on one problem (up to 4 states, 3 labels, one in 30 large as in P01, five weight types) given as one instance (JSON or MessagePack, file or standard input) or as three files, with one engine, trace type and order of options, on a simulated disk and clock with, by choice, I/O in pieces, signals, latency, clock settings, and one failing open, read, mapping, write, close, report device, torn input, unknown option or crash.", must_hit=["probe.many_labels", "probe.many_states", "probe.many_rules", "probe.deep_stacks", "fault.open", "fault.read_error", "fault.torn_input", "fault.write_error", "fault.close_error", "fault.stdout_error", "fault.crash", "fault.mmap", "fault.short_read", "fault.short_write", "fault.eintr", "fault.clock_jump", "fault.stall", "probe.reachable", "probe.unreachable", "probe.weights", "probe.traces", "probe.infinite", "probe.reread", "probe.restarted", "probe.stdin", "probe.pda_reread", "probe.wrong_option"]),
    "P19": dict(src=["p19.cpp"], runs=500000, rule="One run = one history on abstractions: up to 8 combined splits, or one separation problem of up to 12 pairs per side, or up to 20 insertions and queries followed by up to 6 refinements of a mapping, (one in 24: up to 72 elements), or refinements of an abstract system's labels, for three element types in one heap layout and hash seed; a third of the runs fail an allocation or the mapping function.", must_hit=["probe.system_refined", "probe.large", "fault.alloc", "fault.callback_throw", "probe.combined", "probe.separated", "probe.refined"]),
    "P20": dict(src=["p20.cpp"], runs=500000, rule="One run = one history of up to 16 (one in 24: 120, with up to 90 labels or 70 states) additions of states, labels and rules to one kind of pushdown system (named or numbered states, hash or vector storage, four weight types) in one heap layout and hash seed; a third of the runs inject failing allocations.", must_hit=["probe.large", "fault.alloc", "probe.converted", "probe.cleared"]),
}
