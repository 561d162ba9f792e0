"""the single source of properties.jsonl and MANIFEST.json"""
TECH = "deterministic simulation with fault injection: "
NOTES = ("Every check runs seeded simulated executions of the real code under /verif/dst: scheduler, clock, randomness, files, "
         "processes and network are behind seams installed from outside (no hooks in /repo). One seed is one repeatable "
         "execution; a violation is reported with a minimised replay file (python -m dst.runner replay FILE).")
NOTE = ("Seeded search, not proof: what a run explores is real code under controlled schedules and faults, compared with an "
        "independent reference; ")
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, quant, why, files, mech, tech, note, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      tech=tech, note=NOTE + note, observe=list(observe)))


def NA(id, title, statement, over, quant, why, files, mech, reason):
    NOT_APPLICABLE.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                               mech=mech, reason=reason))


P("C01", "A live stream delivers every accepted event exactly once to every observer",
  "Every event (or trace) appended to a live stream before it is stopped is processed exactly once by every algorithm "
  "registered for the whole time between append and delivery, and nothing that was not appended is ever processed. "
  "stop() returns only after all those deliveries have completed, and events appended after it are ignored by everyone. "
  "An event appended while stop() is running is delivered to all observers or to none.",
  ["schedules", "histories", "configurations"],
  "all interleavings of producers, stop(), registrations and the stream's own threads; any pool size",
  "the tests run one producer under one OS schedule; loss or duplication needs a particular interleaving of append, delivery and stop",
  ["pm4py/streaming/stream/live_event_stream.py", "pm4py/streaming/stream/live_trace_stream.py", "pm4py/streaming/algo/interface.py"],
  [("condition variable guarding the queue", "LiveEventStream.append/_deliver/stop"), ("executor shutdown on stop", "LiveEventStream.stop")],
  "seeded scheduler over producers, stop, membership changes and the stream's threads; exactly-once over the recorded history",
  "preemption at synchronisation points, lines or bytecodes of pm4py/streaming; locks, threads and clock simulated.",
  ["what each registered observer processed"])

P("C02", "A live stream is processed by every observer in order of arrival",
  "Every observer of a live event or trace stream processes the events in the order in which they were appended, so the events of "
  "a case appended by one producer are never processed out of order. All observers see the same order. "
  "One observer never processes two events at the same time.",
  ["schedules", "configurations"],
  "all interleavings of producers, delivery thread and workers, any thread pool size and any observer speed",
  "on a quiet machine the pool happens to keep the order; reordering needs a preemption between hand-over and processing",
  ["pm4py/streaming/stream/live_event_stream.py", "pm4py/streaming/stream/live_trace_stream.py", "pm4py/streaming/algo/interface.py"],
  [("deliveries of an event awaited before the next one", "LiveEventStream._deliver"), ("lock around processing", "StreamingAlgorithm.receive")],
  "seeded scheduler with slow observers and several producers; order checked over the recorded history",
  "preemption at synchronisation points, lines or bytecodes of pm4py/streaming; locks, threads and clock simulated.",
  ["the sequence each observer processed"])

P("C03", "A live stream always makes progress and isolates failing observers",
  "start(), append(), register(), deregister() and stop() always return, whichever threads call them and in whatever order, also when "
  "observers are slow, append to the stream themselves or stop is called twice or concurrently. An exception raised by an observer "
  "while processing an event loses neither other events nor the deliveries to other observers. After stop() no thread of the stream is left running.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of the lifecycle calls and all failures of observers",
  "deadlocks and lost wake-ups appear only under particular interleavings; a test that does not hit them passes",
  ["pm4py/streaming/stream/live_event_stream.py", "pm4py/streaming/stream/live_trace_stream.py", "pm4py/streaming/algo/interface.py"],
  [("notify/wait protocol", "LiveEventStream.append/_deliver/stop"), ("exception barrier", "StreamingAlgorithm.receive")],
  "seeded scheduler with deadlock detection and observer failures; liveness as bounded progress in simulated steps",
  "a run that can make no step is a deadlock; step bound of the simulator for livelock.",
  ["return of the calls", "threads alive after stop"])

P("C04", "The directly-follows graph learned from a stream is that of the events received",
  "After any sequence of events, interleaved over cases and fed by any number of threads, the streaming discovery returns exactly the "
  "directly-follows frequencies, activities, start activities and end activities of the events received, case by case. A query made while "
  "events are being received returns the result of one single state of the stream and changes nothing. Events without case or activity are ignored.",
  ["schedules", "histories", "inputs", "configurations"],
  "all interleavings of events and queries, all activity and case names, all dictionary variants",
  "tests feed one sorted log from one thread; torn snapshots and lost counts need concurrent queries and feeders",
  ["pm4py/streaming/algo/discovery/dfg/variants/frequency.py", "pm4py/streaming/algo/interface.py", "pm4py/streaming/util/dictio/generator.py"],
  [("lock around processing and querying", "StreamingAlgorithm.receive/get"), ("counters kept per directly-follows pair", "StreamingDfgDiscovery._process")],
  "seeded scheduler over feeders and concurrent queries; every answer checked against a reference model of the received prefixes",
  "preemption at synchronisation points, lines or bytecodes of pm4py/streaming.",
  ["get()"])

P("C05", "Streaming token-based replay gives each case the verdict of its own events",
  "For every interleaving of the events of different cases, the streaming token-based replay reports for each case the missing, remaining "
  "and fitness information obtained by replaying that case's events alone on the model, with invisible transitions executed where they enable the "
  "next event or lead to the final marking. Status queries and terminations made concurrently return the verdict for a prefix of the case's events. "
  "Terminating a case releases its state without touching other cases.",
  ["schedules", "histories", "inputs"],
  "all interleavings of events, queries and terminations over cases, for accepting Petri nets and activity sequences",
  "tests replay one log in one thread and check little more than absence of errors",
  ["pm4py/streaming/algo/conformance/tbr/variants/classic.py", "pm4py/streaming/algo/interface.py"],
  [("per-case marking and counters", "TbrStreamingConformance._process"), ("lock shared by all operations", "StreamingAlgorithm")],
  "seeded scheduler over feeders, queries and terminations; independent reference replay per case",
  "nets are generated so that the replay is deterministic for the reference.",
  ["get()", "get_status()", "terminate()"])

P("C06", "Streaming footprints and temporal conformance judge each case by its own events",
  "For every interleaving of cases, streaming footprints conformance reports a case as fitting exactly when its events so far respect the "
  "footprints (and, on termination, the end activities), and streaming temporal-profile conformance reports exactly the deviating activity pairs of "
  "each case with their time differences. Concurrent queries answer for a prefix of the events received. Terminating a case forgets its state completely.",
  ["schedules", "histories", "inputs"],
  "all interleavings of events, queries and terminations over cases; all footprints and temporal profiles",
  "tests feed one log from one thread and do not compare the verdicts with a reference",
  ["pm4py/streaming/algo/conformance/footprints/variants/classic.py", "pm4py/streaming/algo/conformance/temporal/variants/classic.py",
   "pm4py/streaming/algo/interface.py"],
  [("per-case state keyed by case identifier", "FootprintsStreamingConformance._process, TemporalProfileStreamingConformance._process"),
   ("lock shared by all operations", "StreamingAlgorithm")],
  "seeded scheduler over feeders, queries and terminations; independent reference verdict per case",
  "preemption at synchronisation points, lines or bytecodes of pm4py/streaming.",
  ["get()", "get_status()", "terminate()"])

P("C07", "The streaming dictionaries are atomic maps under concurrent use",
  "Every history of concurrent operations on the thread-safe dictionary (set, get, delete, membership, length, iteration, keys, values, items, clear, "
  "pop, setdefault, update) is linearizable to a sequential dictionary, no operation blocks forever, and an operation that raises leaves the dictionary usable. "
  "The Redis-backed variant never loses an acknowledged write, lists everything that can be read and never blocks, also when connections fail and recover.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of operations of several threads, all failures of single operations",
  "linearizability and self-deadlock depend on the interleaving; the tests never use the dictionaries concurrently",
  ["pm4py/streaming/util/dictio/versions/thread_safe.py", "pm4py/streaming/util/dictio/versions/redis.py", "pm4py/streaming/util/dictio/generator.py"],
  [("lock per dictionary", "ThreadSafeDict"), ("one command per operation", "RedisDict")],
  "seeded scheduler over client threads; linearizability of the recorded history against a sequential map; stub Redis server with failures",
  "Redis runs as an in-memory stub.",
  ["results of the operations"])

P("C08", "Adapters between stored logs and live streams lose, mix up and reorder nothing",
  "Reading a dataframe as a trace stream yields one trace per case containing exactly that case's events in order of timestamp, whatever the order of the rows. "
  "Distributing object-centric events to flattened live streams gives every stream of an object type exactly one event per related object, with the event's "
  "attributes, in order. Converting a live stream to a static one stores every event, once, in order of arrival.",
  ["schedules", "inputs", "histories"],
  "all dataframes, object-centric logs and event sequences; all interleavings of the streams' threads; resets at any point",
  "tests iterate over sorted logs and compare only counts",
  ["pm4py/streaming/conversion/from_pandas.py", "pm4py/streaming/conversion/ocel_flatts_distributor.py",
   "pm4py/streaming/util/live_to_static_stream.py", "pm4py/objects/ocel/util/ocel_iterator.py"],
  [("sorting and grouping of the rows", "PandasDataframeAsIterable"), ("one flattened event per object", "OcelFlattsDistributor.append")],
  "seeded scheduler over adapters, streams and observers; conservation and order against a reference computed from the input",
  "preemption at synchronisation points, lines or bytecodes of pm4py/streaming.",
  ["traces and events received by the observers"])

P("C09", "Streaming file readers yield exactly the elements of the file",
  "The streaming readers of XES and CSV files yield every event (trace) that satisfies the acceptance condition exactly once, in the "
  "order of the file and with all its attributes, wherever the chunk boundaries of the parser fall and however next(), reset() and "
  "the transfer to a live stream are mixed. A reset starts from the beginning. A truncated XES file or a failing disk raises an exception "
  "after a correct prefix, instead of looking like a shorter log.",
  ["inputs", "histories", "fault_sequences"],
  "every log, position of chunk boundaries, history of calls, acceptance condition and read fault",
  "a unit test reads one small file (one chunk) once; lost attributes need a boundary inside an element, lost elements a reset or a fault in the middle",
  ["pm4py/streaming/importer/xes/variants/xes_event_stream.py", "pm4py/streaming/importer/xes/variants/xes_trace_stream.py",
   "pm4py/streaming/importer/csv/variants/csv_event_stream.py", "pm4py/objects/log/util/xes.py"],
  [("state of the iterparse loop", "StreamingEventXesReader.read_event / StreamingTraceXesReader.read_trace"), ("store of nested attributes", "get_parent_store")],
  "files shifted so that seeded bytes fall on chunk boundaries, disk faults behind a preloaded libc seam, seeded histories of calls; compared with the generated log",
  "documents are written by the harness itself, the live streams run under the scheduler.",
  ["elements returned by the readers"])

P("C10", "The result of an XES import does not depend on where chunk boundaries fall",
  "Every XES importer returns exactly the log described by the document (traces, events, nested attributes, lists, types and, for the "
  "complete importers, extensions, globals and classifiers), wherever the boundaries of its read chunks fall, from a file, a compressed "
  "file or a string, and however short the reads of the operating system are. A maximum number of traces selects exactly the first ones.",
  ["inputs", "configurations", "fault_sequences"],
  "every log, document layout and position of every chunk boundary (in tags, entities, multi-byte characters, between an attribute and its children)",
  "the logs of the tests have their boundaries at fixed places; a wrong result needs a boundary at a particular byte",
  ["pm4py/objects/log/importer/xes/variants/iterparse.py", "pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py",
   "pm4py/objects/log/importer/xes/variants/iterparse_20.py", "pm4py/objects/log/importer/xes/variants/chunk_regex.py",
   "pm4py/objects/log/importer/xes/variants/line_by_line.py", "pm4py/objects/log/util/xes.py"],
  [("parsing of partial elements", "import_from_context / import_log_from_file_object"), ("store of nested attributes", "get_parent_store")],
  "documents shifted so that seeded bytes are the first of a chunk, short reads behind a preloaded libc seam; compared with the generated log",
  "each importer is given only the attributes it is documented for.",
  ["the imported EventLog"])

P("C11", "An import from a failing disk raises, it never returns part of the data",
  "When a read or an open fails while a file is imported, or the file ends early, the importer raises an exception: it never "
  "returns an object that lacks part of the content of the file. Short or interrupted reads do not change the result. A later "
  "import of the same file, without faults, succeeds and is complete.",
  ["fault_sequences", "inputs"],
  "every format, object, position and kind of read fault",
  "tests read from a healthy disk",
  ["pm4py/read.py", "pm4py/objects/log/importer/xes/importer.py", "pm4py/objects/petri_net/importer/importer.py",
   "pm4py/objects/ocel/importer/xmlocel/importer.py", "pm4py/objects/ocel/importer/jsonocel/importer.py",
   "pm4py/objects/ocel/importer/sqlite/importer.py", "pm4py/objects/bpmn/importer/importer.py",
   "pm4py/objects/process_tree/importer/importer.py", "pm4py/objects/dfg/importer/importer.py"],
  [("error propagation of the importers", "importer.apply")],
  "faults on the n-th read or open behind a preloaded libc seam, early end of file, short and interrupted reads, for 16 formats",
  "the end of a truncated .dfg or .csv file cannot be recognised, databases trust the size of the file: no early end is injected there.",
  ["the imported object or the exception"])

P("C12", "What is exported and imported again is unchanged, in every format",
  "An event log, dataframe, object-centric log, Petri net, process tree, BPMN diagram or DFG that is exported (or serialised) and imported again is "
  "equal to the original in everything the format can express, including markup characters, line breaks, Unicode, nested attributes and types. "
  "This holds also after several exports to the same path, and with short or interrupted writes.",
  ["inputs", "fault_sequences", "histories"],
  "every object, chain of formats and variants, and splitting of the writes",
  "the tests round-trip a few well-behaved logs",
  ["pm4py/write.py", "pm4py/read.py", "pm4py/objects/log/exporter/xes/variants/line_by_line.py",
   "pm4py/objects/log/exporter/xes/variants/etree_xes_exp.py", "pm4py/objects/petri_net/exporter/variants/pnml.py",
   "pm4py/objects/process_tree/exporter/variants/ptml.py", "pm4py/objects/bpmn/exporter/variants/etree.py",
   "pm4py/objects/dfg/exporter/variants/classic.py", "pm4py/objects/ocel/exporter/xmlocel/exporter.py",
   "pm4py/objects/ocel/exporter/jsonocel/exporter.py", "pm4py/objects/ocel/exporter/sqlite/exporter.py"],
  [("escaping and types", "exporters"), ("decoding", "importers")],
  "generated objects in 16 formats with hostile strings, written to a simulated disk with short and interrupted writes; normal forms compared",
  "the write faults leave the data intact: this check decides fidelity, C11 and C13 decide failures.",
  ["normal form of the imported object"])

P("C13", "An interrupted export never leaves a file that reads as a wrong object",
  "When a write, open or close fails during an export, or the disk is full, the exporter raises an exception: it never reports success for a file "
  "that does not contain the whole object. After a crash at any point of an export, with any part of the unwritten data missing, the file is "
  "absent, rejected by the importer, or read back as the old or as the new object, never as part of one. No file stays open after a failed export.",
  ["fault_sequences", "crash_points"],
  "every format, object, write fault and crash point between or within the writes",
  "tests write to a healthy disk and never crash",
  ["pm4py/write.py", "pm4py/objects/log/exporter/xes/variants/line_by_line.py", "pm4py/objects/ocel/exporter/sqlite/variants/pandas_exporter.py",
   "pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py", "pm4py/objects/petri_net/exporter/variants/pnml.py"],
  [("order and completeness of writes", "exporters"), ("os.replace of complete databases", "SQLite exporters")],
  "write faults, full disks and crashes after every recorded disk operation (torn and lost writes) behind a preloaded libc seam; the surviving file is imported",
  "text formats whose truncation is undetectable (.dfg, .csv) are excluded from the crash scenario.",
  ["exception of the exporter", "import of the surviving file"])

P("C14", "Monte Carlo simulation respects the resources of every place",
  "At no simulated time are more cases in a place than the place has resources, and every resource is given back exactly once, also by cases "
  "that run into the time limit. The occupation intervals that are returned are exactly the times between the events of the cases that enter and leave the place.",
  ["schedules", "fault_sequences", "configurations"],
  "all interleavings of the simulation threads, durations, resources, arrival rates, clock jumps and time-outs",
  "the tests run one simulation under one OS schedule and look only at the absence of exceptions",
  ["pm4py/algo/simulation/montecarlo/variants/petri_semaph_fifo.py", "pm4py/objects/stochastic_petri/utils.py"],
  [("semaphore per place", "SimulationThread.run"), ("time at which a resource is available", "place.assigned_time")],
  "seeded scheduler over the simulation threads with simulated locks and clock; capacity as an invariant over the occupation, occupation recomputed from the traces",
  "sound nets without duplicate labels or self-loops, as the algorithm requires; durations partly drawn by the harness.",
  ["place interval trees", "resources left after the simulation"])

P("C15", "Monte Carlo simulation returns complete runs, ends and leaves no thread",
  "Every simulated case is a complete run of the net with non-decreasing times starting at or after its arrival, and the reported case times, "
  "median and total time are those of the returned log. The simulation ends whatever the schedule, cases that exceed the time limit are left out entirely, "
  "cases that cannot block each other all end, and no thread stays behind.",
  ["schedules", "fault_sequences", "configurations"],
  "all interleavings of the simulation threads, durations, clock jumps and time-outs",
  "the tests run one small simulation on a quiet machine, without time-outs or clock jumps",
  ["pm4py/algo/simulation/montecarlo/variants/petri_semaph_fifo.py"],
  [("time limit", "SimulationThread.get_rem_time"), ("selection of the terminated cases", "apply")],
  "seeded scheduler with clock jumps and time-outs; every trace is searched as a run of the net; bounded progress",
  "sound nets without duplicate labels or self-loops, as the algorithm requires; durations partly drawn by the harness.",
  ["simulated log", "reported statistics", "threads alive at the end"])

P("C16", "A log simulated from a Petri net contains only runs of the net",
  "Whatever the random draws, the basic and the stochastic playout return exactly the requested number of traces, each a run of the net from the initial marking "
  "that ends in the final marking, in a deadlock or at the maximum length, with consecutive times and case identifiers. The extensive playout returns every "
  "visible run up to the maximum length that ends in the final marking, exactly once. The net and its markings are not changed, inhibitor and reset arcs and weights are respected.",
  ["inputs", "configurations", "schedules"],
  "all draws, bounded nets (weights, deadlocks, duplicates, silent steps, inhibitor and reset arcs) and parameters",
  "tests look at the number of traces of one sound net; a wrong firing needs particular draws on nets with weights, deadlocks or silent loops",
  ["pm4py/algo/simulation/playout/petri_net/variants/basic_playout.py", "pm4py/algo/simulation/playout/petri_net/variants/extensive.py",
   "pm4py/algo/simulation/playout/petri_net/variants/stochastic_playout.py", "pm4py/objects/petri_net/semantics.py"],
  [("choice among the enabled transitions", "apply_playout"), ("state space search without repetitions", "extensive.apply")],
  "draws behind a seeded, skewable seam; every trace replayed by an independent token game, extensive playout compared with an enumerated language",
  "bounded nets without traps of silent transitions.",
  ["simulated log", "visited elements"])

P("C17", "A log simulated from a process tree contains only complete words of its language",
  "Whatever the random draws, the basic and the top-bottom playout return exactly the requested number of traces, each a complete word of the language of the tree "
  "(sequence, choice, parallel, or, interleaving, loops with exit part), with increasing times and distinct case identifiers. The extensive playout returns exactly the words between "
  "the minimum and the maximum length, once each. The tree is not changed.",
  ["inputs", "configurations", "schedules"],
  "all draws, trees over all operators with silent and duplicate leaves, and bounds on the length",
  "tests count the traces of small trees; truncated words need particular draws (children not chosen, parallel loops that end together)",
  ["pm4py/algo/simulation/playout/process_tree/variants/basic_playout.py", "pm4py/objects/process_tree/semantics.py",
   "pm4py/algo/simulation/playout/process_tree/variants/topbottom.py", "pm4py/algo/simulation/playout/process_tree/variants/extensive.py"],
  [("enabled, open and closed nodes", "semantics.execute"), ("bounds on the length", "extensive.apply")],
  "draws behind a seeded, skewable seam; every trace decided by derivatives of the language of the tree, extensive playout compared with an enumerated language",
  "the extensive playout supports sequence, choice, parallel and loop only.",
  ["simulated log"])
P("C18", "A log simulated from a directly-follows graph holds only its weighted paths",
  "The variant playout returns distinct complete paths of the graph (start to end, at most the given occurrences of an activity), each with the product of its transition probabilities, "
  "most probable first; it misses none unless a stated limit (variants, probability mass, time, coverage) stopped it, and return_only_if_complete returns a log only then. "
  "The performance playout returns exactly the requested cases, walks of the graph that start at the stated arrivals and never go back in time; the graph is not changed.",
  ["inputs", "configurations", "schedules"],
  "graphs over up to six activities, all limits, draws and clocks that tick or jump",
  "tests only count the traces; wrong probabilities or a missed path need particular graphs, and the time limit needs a controlled clock",
  ["pm4py/algo/simulation/playout/dfg/variants/classic.py", "pm4py/algo/simulation/playout/dfg/variants/performance.py"],
  [("exploration by probability", "classic.get_traces"), ("limits", "classic.apply"), ("walks", "performance.apply")],
  "draws and clock behind seeded seams (jumps included); every trace and probability compared with an enumeration of the paths of the graph",
  "every activity of the graph lies on a path from a start to an end; occurrences bounded by 1 to 3.",
  ["simulated log, its probabilities and times"])
P("C19", "A generated process tree respects the requested parameters",
  "Whatever the random draws, a generated tree is well formed (parents, children, labels), its number of visible activities is within the requested bounds, it contains only operators "
  "of positive probability, no silent leaf and no duplicate label when their probability is zero, and the requested number of trees is returned. "
  "Parameters count alike when given by name or as enum elements, the dictionary of the caller is not modified, and the generation ends. The basic generator respects its depth bounds.",
  ["inputs", "configurations", "schedules"],
  "all draws (also skewed to the ends of their range) and all parameter combinations",
  "tests call the generators once with defaults; violations need particular draws or parameter combinations",
  ["pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py", "pm4py/algo/simulation/tree_generator/variants/basic.py"],
  [("growing of the tree", "GeneratedTree.add_node"), ("duplication", "GeneratedTree.add_duplicates"), ("parameters", "apply")],
  "draws behind a seeded seam that can skew them, progress stated as a bounded number of draws; the structure of each tree checked against the parameters",
  "min <= mode <= max.",
  ["generated trees, parameters"])
P("C20", "Sampling and splitting conserve the log",
  "Whatever the draws, sampling returns exactly the requested number of cases, events, objects or components (all of them when fewer exist), each once, whole and unchanged, with the metadata of the log; "
  "a train/test split is a partition of the cases by the requested fraction. In object-centric logs everything that refers to a dropped event or object goes, and nothing else. "
  "The input is not changed.",
  ["inputs", "configurations", "schedules"],
  "all draws (also skewed), sizes from nothing to more than there is, logs of every kind",
  "tests sample one log once and look at its length",
  ["pm4py/objects/log/util/sampling.py", "pm4py/objects/log/util/split_train_test.py", "pm4py/objects/ocel/util/sampling.py", "pm4py/ml.py", "pm4py/utils.py"],
  [("random choice of cases", "sample_log, sample_dataframe, split"), ("propagation to relations", "filtering_utils.propagate_event_filtering")],
  "draws behind a seeded seam that can skew them; conservation checked by identity and content of every case, event and object",
  "objects that never interact belong to no connected component.",
  ["sampled logs"])
P("C23", "An alignment explains the trace by a run of the model at the least cost",
  "Every alignment returned explains exactly the events of the trace, its model moves are a run of the model from the initial to the final state (a path of the directly-follows graph, a trace of the other log), and its "
  "cost is the cost of its moves. Petri net alignments (state equation, tweaked, Dijkstra, also with the costs and arc weights given) and process tree alignments (at most one loop) have the least number of deviations, "
  "and the fitness is 1 minus its ratio to the worst case. This holds in whatever order the states are visited, and the model and the parameters are not changed.",
  ["inputs", "schedules", "configurations"],
  "bounded easy-sound nets (silent, duplicate, parallel, weighted), trees, DFGs, logs, noisy traces and every order of the sets of places and transitions",
  "tests compare a few costs on one net; a wrong closed set, heuristic or reconstruction needs particular models, traces and visiting orders",
  ["pm4py/algo/conformance/alignments/petri_net/algorithm.py", "pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py",
   "pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py", "pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_no_heuristics.py",
   "pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py", "pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py",
   "pm4py/algo/conformance/alignments/dfg/variants/classic.py", "pm4py/algo/conformance/alignments/edit_distance/variants/edit_distance.py",
   "pm4py/objects/petri_net/utils/synchronous_product.py", "pm4py/objects/petri_net/utils/align_utils.py"],
  [("search with closed states and heuristics", "__search, __dijkstra, align_variant"), ("reconstruction of the moves", "__reconstruct_alignment, __return_alignment")],
  "hash orders behind a seeded seam; every alignment compared with an independent cheapest-path search on the token game (or on the derivatives of the language)",
  "discounted A*: validity only; DFG and edit distance: validity and cost of the moves only; trees with several loops: listed as a known finding.",
  ["alignments, costs and fitness"])
P("C21", "Alignments, fitness and precision by worker processes equal the sequential ones",
  "Whatever the number of cores and workers and the order in which tasks end, the parallel alignments of Petri nets and process trees, and the alignment-based fitness and precision, "
  "are those of the sequential computation, in the order of the traces, with a progress bar that ends at its total. If a worker crashes, a task fails or a parameter cannot be sent, "
  "the call raises that error and never returns a partial or wrong result. The log, the model and the parameters are not changed.",
  ["schedules", "fault_sequences", "inputs", "configurations"],
  "all schedules of the workers, crashes and failures at any task, logs with duplicate traces, models and variants",
  "tests run the process pool once on a healthy machine; results mixed up, lost or hidden errors need other schedules or a dying worker",
  ["pm4py/algo/conformance/alignments/petri_net/algorithm.py", "pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py",
   "pm4py/algo/evaluation/precision/variants/align_etconformance.py", "pm4py/algo/evaluation/replay_fitness/variants/alignment_based.py", "pm4py/conformance.py"],
  [("distribution of the variants", "apply_multiprocessing"), ("collection of the results", "__form_alignments, evaluate")],
  "process pools behind a seam: workers are threads of the simulator exchanging pickled data, crashed and failed at seeded points; results compared with the sequential call and with reference alignments",
  "costs compared up to the weights of silent moves; a crashed worker breaks the pool as concurrent.futures specifies.",
  ["alignments, fitness, precision, exceptions, progress"])
P("C27", "The inductive miner with worker processes discovers the same model",
  "Whatever the number of worker processes and the order and speed of their answers, the inductive miner (IM, IMf, simplified interface, POWL) returns the model it returns without worker processes, "
  "and without noise filtering a model that accepts every trace of the log. When a worker fails, the failure is raised, or the result is still that model; the call always returns.",
  ["schedules", "fault_sequences", "inputs", "configurations"],
  "all schedules of the workers, failures at any task, logs over 3 to 24 activities",
  "the search by worker processes needs more than 20 activities and a log without cuts; tests do not reach it",
  ["pm4py/algo/discovery/inductive/fall_through/activity_concurrent.py", "pm4py/algo/discovery/inductive/variants/abc.py",
   "pm4py/algo/discovery/inductive/cuts/loop.py", "pm4py/algo/discovery/powl/inductive/fall_through/activity_concurrent.py"],
  [("search for a concurrent activity", "ActivityConcurrentUVCL._get_candidate"), ("stop of the other workers", "_find_cut, ev")],
  "process pool, manager and events behind a seam: workers are threads of the simulator exchanging pickled data; trees compared with the sequential result and their language with the log",
  "the number of activities above which processes are used is lowered in most runs; killed workers hang multiprocessing.Pool itself and are not injected.",
  ["discovered model, exceptions"])
P("C22", "A time limit or a jumping clock never makes alignments wrong",
  "Whatever the limit per trace or per log and whatever the clock does, every trace gets either no alignment or the alignment, cost and fitness it would get without limit. "
  "Without limits nothing is interrupted however far the clock jumps; with a limit the search ends within a bounded number of clock reads after it. "
  "Fitness evaluation and diagnostics of the interrupted result describe exactly the traces with an alignment.",
  ["fault_sequences", "inputs", "configurations"],
  "all limits, clock rates and jumps, models and traces",
  "a limit expires at a point of the search that depends on the speed of the machine; tests use none",
  ["pm4py/algo/conformance/alignments/petri_net/algorithm.py", "pm4py/algo/conformance/alignments/petri_net/variants",
   "pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py", "pm4py/algo/evaluation/replay_fitness/variants/alignment_based.py"],
  [("split of the remaining time", "apply_log, PARAM_MAX_ALIGN_TIME"), ("clock read in the search", "__search of the variants")],
  "virtual clock that advances at every read and jumps at seeded reads; alignments compared with a reference Dijkstra",
  "decomposed alignments: only failures, termination and the fitness formula are claimed.",
  ["alignments, fitness, exceptions, number of clock reads"])
P("C30", "Results do not depend on the machine's time zone or its clock changes",
  "Every public function returns the same result whatever the time zone of the machine and wherever the timestamps lie around its daylight saving changes. "
  "A file written on a machine in one zone reads on a machine in another as the same log. Simulated logs have the same timestamps in every zone.",
  ["configurations", "inputs"],
  "all time zones (fixed, fractional, with clock changes), logs whose timestamps fall around the changes, all file formats",
  "tests run in the zone of the machine, mostly UTC, and cannot change it; an error of an hour needs a timestamp near a clock change",
  ["pm4py/util/dt_parsing/variants/strpfromiso.py", "pm4py/algo/simulation", "pm4py/statistics/attributes/common/get.py", "pm4py/objects/process_tree/semantics.py", "pm4py/utils.py"],
  [("normalisation of timestamps to UTC", "strpfromiso.fix_naivety"), ("conversion of numbers to timestamps", "datetime.fromtimestamp in the playouts")],
  "process time zone seeded per call (TZ, tzset) with DST rules; results of 160 public operations and all file formats compared across zones",
  "connectors of browsers and mail programs report local times by design and are left out.",
  ["results, files, exceptions"])
P("C26", "A call leaves its inputs as they were and does not influence later calls",
  "Every public function leaves the log, DataFrame, Petri net, process tree, DFG and OCEL it is given unchanged, except the functions documented to enrich them in place. "
  "What a call returns depends on its arguments only, not on earlier calls with the same objects or the same dictionary of parameters, even when an earlier call failed half-way.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences of calls on the same objects, with failures injected at any line of any call",
  "tests call each function once on a fresh log; a leftover attribute, column or parameter needs a second call or a failed one",
  ["pm4py/stats.py", "pm4py/discovery.py", "pm4py/conformance.py", "pm4py/filtering.py", "pm4py/convert.py", "pm4py/ml.py", "pm4py/org.py", "pm4py/ocel.py",
   "pm4py/algo", "pm4py/statistics", "pm4py/objects/petri_net/utils/petri_utils.py", "pm4py/util/exec_utils.py"],
  [("annotations of shared nets", "decorate_transitions_prepostset, decorate_places_preset_trans"), ("parameters read and completed", "exec_utils.get_param_value, apply"),
   ("conversions that share objects", "log_converter.apply")],
  "histories of calls on shared objects with exceptions raised at seeded lines; every result compared with the same call on fresh copies and the inputs with their state before",
  "documented in-place enrichers are left out of the unchanged-input part; the parameter dictionary itself may be completed, only results of later calls count.",
  ["results, exceptions, state of the inputs"])
P("C25", "Concurrent callers on the same objects get what they would get alone",
  "Threads that call public functions at the same time on the same log, DataFrame, Petri net, process tree, DFG or OCEL, also with the same dictionary of parameters, each get the result they would get alone, "
  "whatever the schedule, and leave the objects unchanged.",
  ["schedules", "inputs", "configurations"],
  "all schedules of 2 or 3 threads with one or two calls each, all combinations of read-only functions",
  "tests are single-threaded; module-level state or annotations of shared objects matter only when calls overlap",
  ["pm4py/objects/petri_net/utils/petri_utils.py", "pm4py/objects/petri_net/utils/explore_path.py", "pm4py/utils.py", "pm4py/discovery.py", "pm4py/conformance.py",
   "pm4py/algo", "pm4py/statistics", "pm4py/objects/conversion"],
  [("annotations of shared nets", "decorate_places_preset_trans"), ("module-level caches and parameters", "exec_utils, get_properties")],
  "threads of the simulator preempted at seeded lines of pm4py; every result compared with the same call alone",
  "preemption at lines of pm4py; calls into pandas, numpy and networkx are atomic; functions that draw random numbers are left out.",
  ["results, exceptions, state of the inputs"])
P("C28", "Connectors return exactly what their source served and always end",
  "Without failures a connector (GitHub, Chrome and Firefox history, Camunda, SAP) returns every event of its source exactly once, with its attributes, ordered by case and time. "
  "When a request fails, GitHub extraction ends after a bounded number of requests and returns what was served before the failure and nothing else. "
  "When the database or the OpenAI service fails, the failure is raised and no partial or empty result is returned.",
  ["fault_sequences", "inputs", "histories"],
  "all contents of the sources and all failures of requests, connections, queries and fetches",
  "tests cannot reach the services; pages that move between requests, rate limits and truncated answers come from the network only",
  ["pm4py/connectors.py", "pm4py/algo/connectors/variants", "pm4py/llm.py", "pm4py/algo/querying/llm/connectors"],
  [("pages requested until one is empty", "github_repo.execute_query"), ("rows fetched and joined", "chrome_history.apply, firefox_history.apply")],
  "simulated HTTP server below the requests library and failing databases; events compared with the content of the source and the answers served",
  "the order of simultaneous events is not claimed; Outlook and Windows event connectors need Windows.",
  ["extracted logs, requests made, exceptions"])
P("C29", "Anonymised logs publish no true count and only plausible values",
  "Whatever noise is drawn, a trace variant query publishes only counts to which noise of scale 1/epsilon was added and only variants within the given length and threshold. "
  "PRIPEL returns the control flow of the query with ordered timestamps and values from the domain of the attribute, without blocked attributes, "
  "and leaves the given DataFrame unchanged.",
  ["inputs", "configurations", "fault_sequences"],
  "all logs, parameters and sequences of random draws",
  "tests run one log with one random draw and look at no count; a count published without noise cannot be seen among noisy ones",
  ["pm4py/privacy.py", "pm4py/algo/anonymization"],
  [("one draw for each count", "laplace.privatize_tracevariants, sacofa"), ("matching and anonymisation of attributes", "pripel trace_matcher, attribute_anonymizer")],
  "the draws of the noise are decided by the simulator (constant, any, extreme); results compared with a reference of the query for constant noise",
  "the distribution of the exponential mechanism is not claimed; diffprivlib is loaded without its machine learning models.",
  ["published logs, draws and scales of the noise"])
P("C24", "Token replay conserves tokens and judges every trace on its own",
  "For every net and trace, produced plus missing tokens equal consumed plus remaining tokens, the activated transitions play that very token game, and verdict, fitness and place or transition diagnostics follow from it. "
  "The verdict of a trace does not depend on other traces, their order or number, the form of the log, or the addresses of the objects. "
  "Replay-based fitness, precision, generalization and simplicity equal their formulas.",
  ["inputs", "configurations", "histories"],
  "all nets (weights, duplicates, silent transitions, several tokens), traces, options and orders of the traces",
  "tests replay one log on one net with unit weights; caches shared by traces and choices by memory address need certain companions and heaps",
  ["pm4py/algo/conformance/tokenreplay", "pm4py/algo/evaluation/precision", "pm4py/algo/evaluation/replay_fitness", "pm4py/algo/evaluation/generalization",
   "pm4py/algo/evaluation/simplicity", "pm4py/objects/petri_net/utils/petri_utils.py"],
  [("token game and missing tokens", "token_replay.apply_trace, add_missing_tokens"), ("caches shared by traces", "PostFixCaching, MarkingToActivityCaching")],
  "seeded nets and traces replayed in different company, order, form and memory layout; token counts from a reference token game",
  "nets whose silent transitions produce tokens without end are left out (replay explores them for ever); one known finding.",
  ["replay results, place and transition diagnostics, measures"])
P("C31", "The same call returns the same result in every interpreter",
  "Two calls of a public function that draws no random numbers, with equal arguments, return equal results: neither the addresses of places, transitions, arcs or nodes nor the seed of the string hashes, "
  "and so neither the machine nor the process, decide a model, a measure, a verdict, a filtered log or a table.",
  ["configurations", "inputs"],
  "all orders in which sets of objects and of strings can be traversed",
  "tests run in one interpreter and compare with one expected value; a model chosen by the order of a set is equal in every run of the same test process layout",
  ["pm4py/discovery.py", "pm4py/conformance.py", "pm4py/convert.py", "pm4py/stats.py", "pm4py/ml.py", "pm4py/org.py", "pm4py/ocel.py", "pm4py/algo",
   "pm4py/objects/petri_net/utils", "pm4py/objects/conversion", "pm4py/statistics"],
  [("sets of activities sorted before they are tried", "inductive fall_through and cuts, roles, sna"), ("sets of nodes sorted by name", "align_utils, token_replay, decomposition")],
  "identity hashes seeded per run and string hashes of a second interpreter; canonical forms of the results compared",
  "names of nodes and the order of sets, columns and lists of deviations do not count; decision mining and the text of DFG, XES files and POWL choices are left out.",
  ["results, exceptions"])


NA("N01", "Discovered models follow the definitions of their algorithms",
   "Alpha, heuristics, ILP, correlation, transition system, prefix tree, log skeleton, DECLARE, temporal profile and batch discovery return exactly the model their papers define for the log.",
   ["inputs"], "all event logs and thresholds",
   "tests compare a few logs; thresholds, ties and degenerate logs are not covered",
   ["pm4py/discovery.py", "pm4py/algo/discovery"],
   [("relations and thresholds computed from the log", "algo/discovery/*/variants/*.apply")],
   "pure functions of the log: no schedule, clock, I/O or fault takes part, so simulation adds nothing to plain input generation. Their independence from schedules, histories, time zones and hashes is claimed by C25, C26, C30, C31; fitness of the inductive miner by C23 and C27.")
NA("N02", "Filters keep exactly the cases and events they describe",
   "Every filter returns exactly the cases or events that satisfy its condition, in their order and with their attributes, and gives the same answer for an EventLog and a DataFrame.",
   ["inputs"], "all logs and filter arguments",
   "tests filter one or two logs with one argument each",
   ["pm4py/filtering.py", "pm4py/algo/filtering"],
   [("per-case predicates", "algo/filtering/log/*, algo/filtering/pandas/*")],
   "pure functions of log and arguments; nothing for a simulator to decide. Side effects and shared state of the filters are claimed by C25 and C26, time zones by C30.")
NA("N03", "Conversions between models preserve their language",
   "Converting a process tree, POWL model, BPMN diagram, DFG or heuristics net to a Petri net (and back where possible) preserves the accepted traces, and reductions preserve the behaviour between initial and final marking.",
   ["inputs"], "all models", "tests convert a few models and count nodes",
   ["pm4py/convert.py", "pm4py/objects/conversion", "pm4py/objects/petri_net/utils/murata.py", "pm4py/objects/petri_net/utils/reduction.py"],
   [("structural translation", "objects/conversion/*/variants/*.apply")],
   "a pure function of one model; no nondeterminism beyond the order of sets, which C31 covers. Where simulation meets languages (playouts, C16 and C17; alignments, C23) the language is checked against a reference.")
NA("N04", "Soundness and workflow-net verdicts are right",
   "WOFLAN and the workflow-net checks accept exactly the sound workflow nets, and report true diagnostics otherwise.",
   ["inputs"], "all Petri nets", "tests judge a handful of nets",
   ["pm4py/analysis.py", "pm4py/algo/analysis/woflan", "pm4py/algo/analysis/workflow_net"],
   [("coverability graph and invariants", "woflan.algorithm")],
   "a decision about one net without time, I/O or concurrency: a matter for bounded enumeration or proof, not simulation.")
NA("N05", "Statistics, durations and business hours equal their definitions",
   "Case durations, service, waiting, sojourn and cycle times, arrival rates, business-hour durations, overlap and rework equal their definitions over the timestamps of the log.",
   ["inputs"], "all logs and calendars", "tests use one log and no boundary of a working day",
   ["pm4py/stats.py", "pm4py/statistics", "pm4py/util/business_hours.py"],
   [("differences and slots of timestamps", "statistics/*/get.py, util/business_hours.py")],
   "pure arithmetic on the timestamps in the log; the machine's clock and zone take no part, which is what C30 checks.")
NA("N06", "Object-centric logs flatten, filter and summarise consistently",
   "Flattening an OCEL on a type yields one case per object with exactly its related events; filters keep events, objects and relations consistent; graphs, OC-DFG and OC Petri nets count what the relations say.",
   ["inputs"], "all object-centric logs", "tests load a few OCELs and count rows",
   ["pm4py/ocel.py", "pm4py/objects/ocel/util", "pm4py/algo/transformation/ocel", "pm4py/algo/discovery/ocel"],
   [("joins over the relations table", "flattening.flatten, filtering_utils.propagate_*")],
   "joins of tables without faults or schedules; files (C09 to C13), shared use (C25, C26) and hashes (C31) are claimed.")
NA("N07", "Organisational networks and features equal their definitions",
   "Handover, subcontracting, joint activities, roles, resource profiles, social networks and the extracted feature tables equal their definitions over the log.",
   ["inputs"], "all logs", "tests check shapes, not values",
   ["pm4py/org.py", "pm4py/ml.py", "pm4py/algo/organizational_mining", "pm4py/algo/transformation/log_to_features"],
   [("counts over pairs of events", "algo/organizational_mining/*, log_to_features/variants")],
   "pure counting over the log; only stability under schedules, histories, zones and hashes can be decided by simulation and is claimed by C25, C26, C30, C31.")
NA("N08", "Visualisations draw the given model",
   "A visualisation shows exactly the nodes, arcs and annotations of the object it is given, and does not change it.",
   ["inputs"], "all models and formats", "tests only check that a drawing is produced",
   ["pm4py/vis.py", "pm4py/visualization"],
   [("graphviz source built from the model", "visualization/*/variants")],
   "the drawing is made by external programs that are not installed here, from a pure translation of the model; there is no behaviour over time to simulate.")
