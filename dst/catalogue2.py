"""More entries of the catalogue: the functions below the simplified interface, called on the same shared inputs."""
import importlib
import shutil
import tempfile

P = "pm4py."


def f(path, fn="apply"):
    return getattr(importlib.import_module(P + path), fn)


def written(write, names=("f",)):
    """what a writer puts into files of a scratch folder"""
    d = tempfile.mkdtemp(prefix="dst-cat-")
    try:
        r = write(*[d + "/" + n for n in names])
        out = []
        for n in names:
            with open(d + "/" + n, "rb") as fh:
                out.append(fh.read().decode("utf-8", "replace"))
        return out, (r if isinstance(r, (int, str)) else None)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def register(S, O):
    import pm4py
    from .catalogue import norm
    import datetime
    UTC = datetime.timezone.utc
    A = lambda E: E.acts[0]
    B = lambda E: E.acts[1]
    lo, hi = datetime.datetime(2023, 12, 30, tzinfo=UTC), datetime.datetime(2024, 3, 31, 1, tzinfo=UTC)
    acts = lambda E: {a: sum(1 for t in E.log for e in t if e["concept:name"] == a) for a in sorted({e["concept:name"] for t in E.log for e in t})}

    # ---------------------------------------------------------------- filters on EventLog
    def L(name, path, fn, *args, **kw):
        S(name, lambda E, X: f("algo.filtering.log." + path, fn)(E.log, *[a(E) if callable(a) else a for a in args], **{k: (v(E) if callable(v) else v) for k, v in kw.items()}), only="log")

    def D(name, path, fn, *args, **kw):
        S(name, lambda E, X: f("algo.filtering.pandas." + path, fn)(E.df, *[a(E) if callable(a) else a for a in args], **{k: (v(E) if callable(v) else v) for k, v in kw.items()}), only="df")
    num = {"pm4py:param:attribute_key": "cost"}

    def both(name, path, fn, *args, **kw):
        L("log " + name, path, fn, *args, **kw)
        D("df " + name, path, fn, *args, **kw)
    both("repetition", "attr_value_repetition.filter", "apply", lambda E: E.res[0])
    both("numeric events", "attributes.attributes_filter", "apply_numeric_events", 2, 6, parameters=lambda E: {**num})
    both("numeric", "attributes.attributes_filter", "apply_numeric", 2, 6, parameters=lambda E: {**num})
    both("attribute events", "attributes.attributes_filter", "apply_events", lambda E: [A(E), B(E)])
    both("attribute cases", "attributes.attributes_filter", "apply", lambda E: [A(E)])
    L("trace attribute", "attributes.attributes_filter", "apply_trace_attribute", ["x"], parameters=lambda E: {"pm4py:param:attribute_key": "kind"})
    L("max activities", "attributes.attributes_filter", "filter_log_on_max_no_activities", 2)
    both("between", "between.between_filter", "apply", A, B)
    L("ncases", "cases.case_filter", "filter_on_ncases", 2)
    L("case size", "cases.case_filter", "filter_on_case_size", 2, 3)
    L("case performance", "cases.case_filter", "filter_case_performance", 0, 90000)
    D("ncases df", "cases.case_filter", "filter_on_ncases", max_no_cases=2)
    D("case size df", "cases.case_filter", "filter_on_case_size", min_case_size=2, max_case_size=3)
    D("case performance df", "cases.case_filter", "filter_on_case_performance", min_case_performance=0, max_case_performance=90000, business_hours=True)
    both("end activities", "end_activities.end_activities_filter", "apply", lambda E: [A(E)])
    both("start activities", "start_activities.start_activities_filter", "apply", lambda E: [A(E)])
    for pos in (True, False):
        s = "+" if pos else "-"
        prm = lambda E, pos=pos: {"positive": pos}
        both("ltl ef " + s, "ltl.ltl_checker", "eventually_follows", lambda E: [A(E), B(E)], parameters=prm)
        both("ltl ef3 " + s, "ltl.ltl_checker", "eventually_follows", lambda E: [A(E), B(E), A(E)], parameters=prm)
        both("ltl next " + s, "ltl.ltl_checker", "A_next_B_next_C", A, B, A, parameters=prm)
        both("ltl four eyes " + s, "ltl.ltl_checker", "four_eyes_principle", A, B, parameters=prm)
        both("ltl persons " + s, "ltl.ltl_checker", "attr_value_different_persons", A, parameters=prm)
        both("paths " + s, "paths.paths_filter", "apply", lambda E: [(A(E), B(E))], parameters=prm)
    both("ltl ef time", "ltl.ltl_checker", "eventually_follows", lambda E: [A(E), B(E)],
         parameters=lambda E: {"enable_timestamp": True, "timestamp_diff_boundaries": [[0, 50000]]})
    both("path performance", "paths.paths_filter", "apply_performance", lambda E: (A(E), B(E)), parameters=lambda E: {"min_performance": 0, "max_performance": 50000})
    L("paths from log", "paths.paths_filter", "get_paths_from_log")
    both("prefixes", "prefixes.prefix_filter", "apply", A)
    both("suffixes", "suffixes.suffix_filter", "apply", A)
    both("rework", "rework.rework_filter", "apply", A, parameters=lambda E: {"min_occurrences": 1})
    both("rework negative", "rework.rework_filter", "apply", A, parameters=lambda E: {"min_occurrences": 1, "positive": False})
    both("time contained", "timestamp.timestamp_filter", "filter_traces_contained", lo, hi)
    both("time intersecting", "timestamp.timestamp_filter", "filter_traces_intersecting", lo, hi)
    both("time events", "timestamp.timestamp_filter", "apply_events", lo, hi)
    both("time attribute", "timestamp.timestamp_filter", "filter_traces_attribute_in_timeframe", "concept:name", A, lo, hi)
    both("segments", "traces.trace_filter", "apply", lambda E: [["...", A(E), "...", B(E)]])
    both("variants", "variants.variants_filter", "apply", lambda E: [(A(E), B(E)), tuple(e["concept:name"] for e in E.log[0])])
    both("top k", "variants.variants_filter", "filter_variants_top_k", 1)
    both("coverage", "variants.variants_filter", "filter_variants_by_coverage_percentage", 0.3)
    both("maximum coverage", "variants.variants_filter", "filter_variants_by_maximum_coverage_percentage", 0.5)
    L("variants percentage", "variants.variants_filter", "filter_log_variants_percentage", 0.5)
    D("attribute values df", "attributes.attributes_filter", "filter_df_on_attribute_values", lambda E: [A(E)], attribute_key="concept:name", positive=False)
    D("activities above df", "attributes.attributes_filter", "filter_df_keeping_activ_exc_thresh", 2)
    D("special activities df", "attributes.attributes_filter", "filter_df_keeping_spno_activities", max_no_activities=2)
    D("end occurrences", "end_activities.end_activities_filter", "filter_df_on_end_activities_nocc", 1)
    D("start occurrences", "start_activities.start_activities_filter", "filter_df_on_start_activities_nocc", 1)

    # ---------------------------------------------------------------- filters on DFGs
    G = lambda name, fn, *args, **kw: S("dfg " + name, lambda E, X: f("objects.dfg.filtering.dfg_filtering", fn)(
        E.dfg[0], E.dfg[1], E.dfg[2], acts(E), *[a(E) if callable(a) else a for a in args], **kw), only="log")
    G("activities percentage", "filter_dfg_on_activities_percentage", 0.5)
    G("paths percentage", "filter_dfg_on_paths_percentage", 0.5)
    G("paths percentage all", "filter_dfg_on_paths_percentage", 0.3, keep_all_activities=True)
    G("keep connected", "filter_dfg_keep_connected", 0.5)
    G("to activity", "filter_dfg_to_activity", A)
    G("from activity", "filter_dfg_from_activity", A)
    G("contain activity", "filter_dfg_contain_activity", A)
    S("dfg clean noise", lambda E, X: f("objects.dfg.filtering.dfg_filtering", "clean_dfg_based_on_noise_thresh")(E.dfg[0], E.acts, 0.5))
    for fn in ("get_vertices", "get_outgoing_arcs", "get_incoming_arcs", "get_source_vertices", "get_sink_vertices", "get_transitive_relations", "get_vertex_frequencies"):
        S("dfg " + fn, lambda E, X, fn=fn: f("objects.dfg.util", fn)(f("objects.dfg.obj", "DFG")(*E.dfg)))
    for fn in ("get_outgoing_edges", "get_ingoing_edges", "infer_start_activities", "infer_end_activities", "get_activities_from_dfg",
               "max_occ_all_activ", "sum_start_activities_count", "sum_end_activities_count", "get_activities_self_loop"):
        S("dfg " + fn, lambda E, X, fn=fn: f("objects.dfg.utils.dfg_utils", fn)(E.dfg[0]))
    S("dfg directions", lambda E, X: f("objects.dfg.utils.dfg_utils", "get_activities_dirlist")(f("objects.dfg.utils.dfg_utils", "get_activities_direction")(E.dfg[0], sorted(E.acts))))
    S("causal alpha", lambda E, X: f("algo.discovery.causal.variants.alpha")(E.dfg[0]))
    S("causal heuristic", lambda E, X: f("algo.discovery.causal.variants.heuristic")(E.dfg[0]))
    S("dfg to net", lambda E, X: f("objects.conversion.dfg.variants.to_petri_net_activity_defines_place")(
        E.dfg[0], parameters={"start_activities": E.dfg[1], "end_activities": E.dfg[2]}))
    S("dfg to net 2", lambda E, X: f("objects.conversion.dfg.variants.to_petri_net_invisibles_no_duplicates")(
        E.dfg[0], parameters={"start_activities": E.dfg[1], "end_activities": E.dfg[2]}))
    S("alpha from dfg", lambda E, X: f("algo.discovery.alpha.algorithm", "apply_dfg")(E.dfg[0], parameters={"start_activities": E.dfg[1], "end_activities": E.dfg[2]}))
    S("heuristics from dfg", lambda E, X: f("algo.discovery.heuristics.algorithm", "apply_heu_dfg")(E.dfg[0]))

    def imd(E, X, **kw):
        return pm4py.discover_process_tree_inductive(f("objects.dfg.obj", "DFG")(*E.dfg), **kw)
    S("inductive from dfg", imd)
    S("inductive from dfg noise", lambda E, X: imd(E, X, noise_threshold=0.3))
    S("footprints dfg", lambda E, X: f("algo.discovery.footprints.dfg.variants.dfg")(E.dfg[0]))
    S("dfg serialize", lambda E, X: f("objects.dfg.exporter.exporter", "serialize")(E.dfg[0], parameters={"start_activities": E.dfg[1], "end_activities": E.dfg[2]}))

    # ---------------------------------------------------------------- log utilities
    for name, path, fn, args in [
            ("basic filter events", "basic_filter", "filter_log_events_attr", [lambda E: [A(E)]]),
            ("basic filter traces", "basic_filter", "filter_log_traces_attr", [lambda E: [A(E)]]),
            ("one trace per variant", "filtering_utils", "keep_one_trace_per_variant", []),
            ("one attribute per event", "filtering_utils", "keep_only_one_attribute_per_event", ["concept:name"]),
            ("class by value", "get_class_representation", "get_class_representation_by_str_ev_attr_value_value", ["org:resource"]),
            ("class by presence", "get_class_representation", "get_class_representation_by_str_ev_attr_value_presence", ["concept:name", A]),
            ("class by duration", "get_class_representation", "get_class_representation_by_trace_duration", [10000]),
            ("encoded log", "get_log_encoded", "get_log_encoded", [["kind"], ["concept:name"]]),
            ("prefixes of length", "get_prefixes", "get_prefixes_from_log", [2]),
            ("log of prefixes", "get_prefixes", "get_log_with_log_prefixes", []),
            ("to activities", "get_prefixes", "get_log_traces_to_activities", [lambda E: E.acts]),
            ("until activity", "get_prefixes", "get_log_traces_until_activity", [A]),
            ("event labels", "log", "get_event_labels", ["concept:name"]),
            ("event labels counted", "log", "get_event_labels_counted", ["concept:name"]),
            ("trace variants", "log", "get_trace_variants", []),
            ("project traces", "log", "project_traces", [["concept:name"]]),
            ("encoding", "log_regex", "form_encoding_dictio_from_log", []),
            ("move attributes", "move_attrs_to_trace", "apply", [{"enable_deepcopy": True}]),
            ("sort by time reversed", "sorting", "sort_timestamp", ["time:timestamp", True]),
            ("sort by length", "sorting", "sort_lambda", [lambda E: (lambda t: len(t))])]:
        S("util " + name, lambda E, X, path=path, fn=fn, args=args: f("objects.log.util." + path, fn)(E.log, *[a(E) if callable(a) else a for a in args]), only="log")
    S("util to alphabet", lambda E, X: f("objects.log.util.activities_to_alphabet")(E.df), mut=True)
    S("util numpy variants", lambda E, X: f("objects.log.util.pandas_numpy_variants")(E.df))
    S("util partitioning", lambda E, X: f("objects.log.util.dataframe_utils", "insert_partitioning")(E.df, 2), mut=True)
    S("util features df", lambda E, X: f("objects.log.util.dataframe_utils", "automatic_feature_extraction_df")(E.df))
    S("util feature selection df", lambda E, X: f("objects.log.util.dataframe_utils", "automatic_feature_selection_df")(E.df))
    S("util features columns", lambda E, X: f("objects.log.util.dataframe_utils", "get_features_df")(E.df, ["concept:name", "cost"]))
    S("util artificial df", lambda E, X: f("objects.log.util.dataframe_utils", "insert_artificial_start_end")(E.df))
    S("util sample log", lambda E, X: f("objects.log.util.sampling", "sample")(E.log, 2), rnd=True)
    S("util sample df", lambda E, X: f("objects.log.util.dataframe_utils", "sample_dataframe")(E.df, parameters={"max_no_cases": 2}), rnd=True)
    S("util split log", lambda E, X: f("objects.log.util.split_train_test", "split")(E.log, 0.6), rnd=True)

    # ---------------------------------------------------------------- simplified interface
    S("variants as tuples", lambda E, X: pm4py.get_variants_as_tuples(X))
    S("self distance dict", lambda E, X: pm4py.discovery.derive_minimum_self_distance(X))
    S("hof filter trace", lambda E, X: pm4py.hof.filter_trace(lambda e: e["concept:name"] == A(E), E.log[0]))
    S("hof sort trace", lambda E, X: pm4py.hof.sort_trace(E.log[0], key=lambda e: e["concept:name"], reverse=True))
    S("generate marking", lambda E, X: pm4py.generate_marking(E.net, {"source": 2}))
    S("rebase", lambda E, X: pm4py.rebase(X, case_id="case:concept:name", activity_key="org:resource"), only="log")
    S("format df", lambda E, X: pm4py.format_dataframe(E.df, case_id="case:kind", activity_key="org:resource"), mut=True)
    S("format df again", lambda E, X: pm4py.format_dataframe(E.df), mut=True)
    S("sample events", lambda E, X: pm4py.sample_events(pm4py.convert_to_event_stream(E.log), 2), rnd=True)
    S("set classifier", lambda E, X: pm4py.set_classifier(X, ["concept:name", "org:resource"]), mut=True)
    S("properties", lambda E, X: pm4py.utils.get_properties(X))
    S("once per case", lambda E, X: pm4py.get_event_attribute_values(X, "org:resource", count_once_per_case=True))
    S("simplicity 2", lambda E, X: pm4py.simplicity_petri_net(E.net, E.im, E.fm, "extended_cardoso"))
    S("simplicity 3", lambda E, X: pm4py.simplicity_petri_net(E.net, E.im, E.fm, "extended_cyclomatic"))
    S("handover beta", lambda E, X: pm4py.discover_handover_of_work_network(X, beta=1))
    S("outcome prefixes", lambda E, X: pm4py.extract_target_vector(E.log, "next_time"))
    T = pm4py.llm
    S("llm features", lambda E, X: T.abstract_log_features(X))
    S("llm skeleton", lambda E, X: sorted("".join(sorted(x)) for x in T.abstract_log_skeleton(pm4py.discover_log_skeleton(E.log)).split("\n")))
    S("llm net", lambda E, X: T.abstract_petri_net(E.net, E.im, E.fm) is not None)
    S("llm temporal profile", lambda E, X: T.abstract_temporal_profile(pm4py.discover_temporal_profile(X)))
    O("llm ocel features", lambda o: T.abstract_ocel_features(o, "org:resource"), slow=True)
    O("llm ocdfg", lambda o: T.abstract_ocel_ocdfg(o), slow=True)
    O("sample objects", lambda o: pm4py.sample_ocel_objects(o, 2), rnd=True)
    O("sample components", lambda o: pm4py.sample_ocel_connected_components(o, 1), rnd=True, slow=True)
    O("sample ocel events", lambda o: pm4py.sample_events(o, 2), rnd=True)

    # ---------------------------------------------------------------- trees and nets
    G_ = "objects.process_tree.utils.generic"
    import copy
    S("tree binary", lambda E, X: f(G_, "process_tree_to_binary_process_tree")(E.tree), mut=True)
    S("tree fold", lambda E, X: f(G_, "fold")(E.tree))
    S("tree taus", lambda E, X: f(G_, "reduce_tau_leafs")(copy.deepcopy(E.tree)))
    S("tree height", lambda E, X: f(G_, "get_process_tree_height")(E.tree))
    S("tree leaves", lambda E, X: sorted(str(x.label) for x in f(G_, "get_leaves")(E.tree)))
    S("tree equality", lambda E, X: f(G_, "structurally_language_equal")(E.tree, copy.deepcopy(E.tree)))
    S("tree lengths", lambda E, X: (f("objects.process_tree.utils.bottomup", "get_max_trace_length")(E.tree), f("objects.process_tree.utils.bottomup", "get_min_trace_length")(E.tree)))
    S("tree bottom-up", lambda E, X: [str(n) for n in f("objects.process_tree.utils.bottomup", "get_bottomup_nodes")(E.tree)])
    S("tree parse", lambda E, X: pm4py.parse_process_tree(str(E.tree)))
    S("tree generate log", lambda E, X: f("objects.process_tree.semantics", "generate_log")(E.tree, 2), rnd=True)
    S("tree reduction", lambda E, X: f("algo.reduction.process_tree.variants.tree_tr_based")(E.tree, E.log[0]), slow=True)
    S("tree bordered", lambda E, X: f("objects.conversion.process_tree.variants.to_petri_net_transition_bordered")(E.tree))
    S("tree to powl", lambda E, X: repr(f("objects.conversion.process_tree.variants.to_powl")(E.tree)))
    S("tree to net again", lambda E, X: pm4py.convert_to_petri_net(E.tree))
    N = "objects.petri_net.utils."
    for name, path, fn in [("consumption matrix", "consumption_matrix", "construct"), ("incidence matrix", "incidence_matrix", "construct")]:
        S("net " + name, lambda E, X, path=path, fn=fn: [len(v) for v in vars(f(N + path, fn)(E.net)).values() if hasattr(v, "__len__")])
    S("net murata", lambda E, X: f(N + "murata", "apply_reduction")(*copy.deepcopy([E.net, E.im, E.fm])))
    S("net murata kept", lambda E, X: f(N + "murata", "apply_reduction")(E.net, E.im, E.fm), mut=True)
    S("net simple reduction", lambda E, X: f(N + "reduction", "apply_simple_reduction")(copy.deepcopy(E.net)))
    S("net wf checks", lambda E, X: (f(N + "check_soundness", "check_wfnet")(E.net), f(N + "check_soundness", "check_easy_soundness_of_wfnet")(E.net),
                                     f(N + "check_soundness", "check_easy_soundness_net_in_fin_marking")(E.net, E.im, E.fm)))
    S("net markings", lambda E, X: (f(N + "initial_marking", "discover_initial_marking")(E.net), f(N + "final_marking", "discover_final_marking")(E.net)))
    S("net variants", lambda E, X: sorted(repr(norm(x)) for x in f(N + "petri_utils", "acyclic_net_variants")(E.net, E.im, E.fm)) if "*" not in str(E.tree) else None)
    S("net s-components", lambda E, X: sorted(sorted(str(x) for x in c) for c in f(N + "petri_utils", "get_s_components_from_petri")(E.net, E.im, E.fm)), slow=True)
    S("net decoration", lambda E, X: None if f(N + "petri_utils", "decorate_transitions_prepostset")(E.net) else None, mut=True)
    S("net woflan", lambda E, X: f("algo.analysis.woflan.algorithm")(E.net, E.im, E.fm, parameters={"print_diagnostics": False, "return_asap_when_not_sound": False}), slow=True)
    S("net workflow", lambda E, X: f("algo.analysis.workflow_net.algorithm")(E.net))
    S("net reset", lambda E, X: pm4py.convert_petri_net_type(E.net, E.im, E.fm, "reset_inhibitor")[0].arcs.__len__())
    S("usage comparison", lambda E, X: sorted((str(k.label if hasattr(k, "label") else ""), str(v["color"])) for k, v in f("algo.comparison.petrinet.element_usage_comparison", "compare_element_usage_two_logs")(
        E.net, E.im, E.fm, E.log, E.log).items() if hasattr(k, "label")), slow=True)
    S("precision align", lambda E, X: f("algo.evaluation.precision.algorithm")(E.log, E.net, E.im, E.fm, variant=f("algo.evaluation.precision.algorithm", "Variants").ALIGN_ETCONFORMANCE))
    S("evaluation", lambda E, X: f("algo.evaluation.algorithm")(E.log, E.net, E.im, E.fm), slow=True)

    def perf_map(E, X):
        from pm4py.visualization.petri_net.util import performance_map as M
        from pm4py.algo.conformance.tokenreplay import algorithm as R
        v = {k: [E.log[i] for i in w] for k, w in f("statistics.variants.log.get", "get_variants_from_log_trace_idx")(E.log).items()}
        return len(v)
    S("token decorations", perf_map)

    def filtering_perf(E, X):
        M = importlib.import_module(P + N + "performance_map")
        t = M.get_transition_performance_with_token_replay(E.log, E.net, E.im, E.fm)
        return sorted((str(k), sorted(map(str, v)) if not isinstance(v, dict) else len(v)) for k, v in t.items())
    S("transition performance", filtering_perf)

    def root_causes(E, X):
        from pm4py.algo.conformance.tokenreplay.diagnostics import root_cause_analysis as D_
        from pm4py.algo.conformance.tokenreplay import algorithm as R
        r = R.apply(E.log, E.net, E.im, E.fm, variant=R.Variants.TOKEN_REPLAY, parameters={"enable_pltr_fitness": True, "disable_variants": True})
        return (sorted(str(t) for t in D_.diagnose_from_trans_fitness(E.log, r[2], parameters={"string_attributes": ["org:resource"], "numeric_attributes": ["cost"]})),
                sorted(D_.diagnose_from_notexisting_activities(E.log, r[3], parameters={"string_attributes": ["org:resource"], "numeric_attributes": ["cost"]})))
    S("root causes", root_causes)
    S("prefix lists", lambda E, X: f("algo.evaluation.precision.utils", "get_log_prefixes")(X))

    # ---------------------------------------------------------------- statistics
    for path in ("attributes", ):
        S("stat kde", lambda E, X: f("statistics.attributes.log.get", "get_kde_numeric_attribute")(E.log, "cost"))
        S("stat kde df", lambda E, X: f("statistics.attributes.pandas.get", "get_kde_numeric_attribute")(E.df, "cost"))
        S("stat distribution", lambda E, X: f("statistics.attributes.log.get", "get_events_distribution")(E.log, distr_type="hours"))
        S("stat distribution df", lambda E, X: f("statistics.attributes.pandas.get", "get_events_distribution")(E.df, distr_type="days_week"))
        S("stat attributes for tree", lambda E, X: [sorted(x) for x in f("statistics.attributes.log.select", "select_attributes_from_log_for_tree")(E.log)])
    for s in ("concurrent_activities", "eventually_follows", "service_time", "rework"):
        pp = {"start_timestamp_key": "start_timestamp", "strict": True}
        S(f"stat {s} log", lambda E, X, s=s: f(f"statistics.{s}.log.get")(E.log, parameters=dict(pp)))
        S(f"stat {s} df", lambda E, X, s=s: f(f"statistics.{s}.pandas.get")(E.df, parameters=dict(pp)))
    S("stat passed time", lambda E, X: f("statistics.passed_time.log.algorithm")(E.log, A(E), variant=f("statistics.passed_time.log.algorithm", "Variants").PREPOST))
    S("stat passed time df", lambda E, X: f("statistics.passed_time.pandas.algorithm")(E.df, A(E), variant=f("statistics.passed_time.pandas.algorithm", "Variants").PREPOST))
    S("stat variants durations", lambda E, X: f("statistics.variants.log.get", "get_variants_along_with_case_durations")(E.log)[1])
    S("stat variants df", lambda E, X: (f("statistics.variants.pandas.get", "get_variants_count")(E.df), f("statistics.variants.pandas.get", "get_variants_set")(E.df)))
    S("stat cases description", lambda E, X: (f("statistics.traces.generic.log.case_statistics", "get_cases_description")(E.log), f("statistics.traces.generic.log.case_statistics", "get_variant_statistics")(E.log)))
    S("stat cases description df", lambda E, X: (f("statistics.traces.generic.pandas.case_statistics", "get_cases_description")(E.df), f("statistics.traces.generic.pandas.case_statistics", "get_variant_statistics")(E.df)))
    S("stat kde durations", lambda E, X: f("statistics.traces.generic.log.case_statistics", "get_kde_caseduration_json")(E.log))
    S("stat kde durations df", lambda E, X: f("statistics.traces.generic.pandas.case_statistics", "get_kde_caseduration_json")(E.df))
    S("stat arrival", lambda E, X: (f("statistics.traces.generic.log.case_arrival", "get_case_arrival_avg")(E.log), f("statistics.traces.generic.log.case_arrival", "get_case_dispersion_avg")(E.log)))
    S("stat arrival df", lambda E, X: (f("statistics.traces.generic.pandas.case_arrival", "get_case_arrival_avg")(E.df), f("statistics.traces.generic.pandas.case_arrival", "get_case_dispersion_avg")(E.df)))

    # ---------------------------------------------------------------- discovery variants, features, organisation
    S("spectrum", lambda E, X: f("algo.discovery.performance_spectrum.algorithm")(X, E.acts[:2]))
    S("temporal profile interval", lambda E, X: f("algo.discovery.temporal_profile.algorithm")(X, parameters={"start_timestamp_key": "start_timestamp"}))
    S("dfg freq triples", lambda E, X: f("algo.discovery.dfg.variants.freq_triples")(E.log))
    S("dfg case attributes", lambda E, X: f("algo.discovery.dfg.variants.case_attributes")(E.log, parameters={"case_attribute": "amount"}))
    S("batches resource", lambda E, X: f("algo.discovery.batches.algorithm")(X, parameters={"merge_distance": 3600, "min_batch_size": 1}))
    S("heuristics dependency", lambda E, X: pm4py.discover_heuristics_net(X, dependency_threshold=0.9, and_threshold=0.8))
    S("heuristics ++", lambda E, X: f("algo.discovery.heuristics.variants.plusplus", "apply_heu")(E.log), slow=True)
    S("inductive fallthroughs", lambda E, X: pm4py.discover_process_tree_inductive(X, disable_fallthroughs=True))
    S("inductive multi", lambda E, X: pm4py.discover_process_tree_inductive(X, multi_processing=False))
    S("powl maximal", lambda E, X: repr(pm4py.discover_powl(E.log, variant=f("algo.discovery.powl.inductive.variants.powl_discovery_varaints", "POWLDiscoveryVariant").MAXIMAL)))
    S("log skeleton noise", lambda E, X: pm4py.discover_log_skeleton(X, noise_threshold=0.2))
    S("declare filters", lambda E, X: pm4py.discover_declare(X, allowed_templates={"response", "precedence", "init"}, min_support_ratio=0.2, min_confidence_ratio=0.5))
    S("transition system views", lambda E, X: pm4py.discover_transition_system(X, direction="backward", window=1, view="set"))
    S("trie", lambda E, X: f("algo.transformation.log_to_trie.algorithm")(E.log))
    S("intervals tree", lambda E, X: f("algo.transformation.log_to_interval_tree.algorithm")(E.log))
    def by_name(r):
        m, names = r
        return sorted((n, norm([(row[i].tolist() if hasattr(row[i], "tolist") else row[i]) for row in (m.tolist() if hasattr(m, "tolist") else m)])) for i, n in enumerate(names))
    TB = "algo.transformation.log_to_features.variants.trace_based"
    for fn in ("max_concurrent_events", "max_concurrent_events_per_activity", "resource_workload", "work_in_progress", "indirect_paths_times_last_occ",
               "direct_paths_times_last_occ", "times_from_first_occurrence_activity_case", "times_from_last_occurrence_activity_case", "first_last_activity_index_trace", "case_duration"):
        S("features " + fn, lambda E, X, fn=fn: by_name(f(TB, fn)(E.log)), slow=fn in ("max_concurrent_events_per_activity",))
    S("features default", lambda E, X: by_name(f(TB, "get_default_representation")(E.log)))

    def ev_features(E, X):
        data, names = f("algo.transformation.log_to_features.algorithm")(E.log, variant=f("algo.transformation.log_to_features.algorithm", "Variants").EVENT_BASED)
        return [[sorted(zip(names, ev)) for ev in c] for c in data]
    S("features events", ev_features)
    S("local diagnostics", lambda E, X: f("algo.organizational_mining.local_diagnostics.algorithm", "apply_from_group_attribute")(X))
    S("local diagnostics roles", lambda E, X: f("algo.organizational_mining.local_diagnostics.algorithm", "apply_from_clustering_or_roles")(X, pm4py.discover_organizational_roles(E.log)))
    S("sna to graph", lambda E, X: f("algo.organizational_mining.sna.util", "sna_result_to_nx_graph")(pm4py.discover_working_together_network(X)))
    S("case relations", lambda E, X: f("algo.merging.case_relations.algorithm")(E.df, E.df, E.pairs()), slow=True)
    S("interleavings", lambda E, X: f("algo.discovery.ocel.interleavings.algorithm")(E.df, E.df, E.pairs()), slow=True)
    S("link analysis", lambda E, X: f("algo.discovery.ocel.link_analysis.algorithm")(E.df, parameters={"out_column": "case:concept:name", "in_column": "case:concept:name"}))
    S("attribute clustering", lambda E, X: len(f("algo.clustering.trace_attribute_driven.algorithm")(E.log, "kind")), slow=True)

    # ---------------------------------------------------------------- object-centric
    U = "objects.ocel.util."
    for name, args, fn in [("attributes_names", [], "get_attribute_names"), ("attributes_per_type", [], "get"), ("convergence_divergence_diagnostics", [], "apply"),
                           ("ev_att_to_obj_type", ["cost"], "apply"), ("event_prefix_suffix_per_obj", [], "apply"),
                           ("events_per_object_type", [], "apply"), ("events_per_type_per_activity", [], "apply"), ("explode", [], "apply"),
                           ("objects_per_type_per_activity", [], "apply"), ("ocel_to_dict_types_rel", [], "apply"),
                           ("ocel_type_renaming", [], "remove_spaces_non_alphanumeric_characters_from_types"), ("ocel_type_renaming", [], "abbreviate_event_types"),
                           ("related_events", [], "related_events_dct"), ("related_objects", [], "related_objects_dct_per_type"), ("related_objects", [], "related_objects_dct_overall"),
                           ("rename_objs_ot_tim_lex", [], "apply"), ("parent_children_ref", ["case:concept:name", "org:resource"], "apply"),
                           ("ocel_consistency", [], "apply"), ("filtering_utils", [], "propagate_event_filtering"), ("filtering_utils", [], "propagate_relations_filtering")]:
        if fn:
            O(f"ocel {name} {fn}", lambda o, name=name, args=args, fn=fn: f(U + name, fn)(o, *args),
              mut=name in ("filtering_utils", "ocel_consistency", "parent_children_ref"))
    O("ocel e2o qualification", lambda o: f(U + "e2o_qualification")(o, "creation"))
    O("ocel e2o termination", lambda o: f(U + "e2o_qualification")(o, "termination"))
    O("ocel iterator", lambda o: list(f(U + "ocel_iterator")(o)))
    O("ocel summary", lambda o: str(o.get_summary()))
    O("ocel consistent", lambda o: o.is_ocel20())
    OF = "algo.filtering.ocel."
    O("ocel event attributes", lambda o: f(OF + "event_attributes")(o, ["a"], parameters={"positive": False}))
    O("ocel event timestamps", lambda o: f(OF + "event_attributes", "apply_timestamp")(o, "2023-12-30 00:00:00", "2024-03-31 01:00:00"))
    O("ocel object attributes", lambda o: f(OF + "object_attributes")(o, ["r1"], parameters={"pm4py:param:attribute_key": "ocel:oid", "positive": False}))
    O("ocel matching", lambda o: f(OF + "activity_type_matching")(o, {"a": ["org:resource"], "b": ["case:concept:name"]}))
    O("ocel per type", lambda o: f(OF + "objects_ot_count")(o, {"org:resource": 1}))
    for g_ in ("cobirth", "codeath", "descendants", "inheritance", "interaction"):
        O("ocel graph " + g_, lambda o, g_=g_: f(f"algo.transformation.ocel.graphs.object_{g_}_graph")(o))
    O("ocel 2.0", lambda o: f("algo.transformation.ocel.graphs.ocel20_computation")(o))
    O("ocel split", lambda o: len(f("algo.transformation.ocel.split_ocel.algorithm")(o)), slow=True)
    O("ocel split ancestors", lambda o: [len(x.events) for x in f("algo.transformation.ocel.split_ocel.variants.ancestors_descendants")(o, parameters={"object_type": "org:resource"})], slow=True)
    O("ocel saw nets", lambda o: sorted(map(str, f("algo.discovery.ocel.saw_nets.algorithm")(o))), slow=True)
    O("ocel features events", lambda o: by_name(f("algo.transformation.ocel.features.events.algorithm")(o)), slow=True)
    O("ocel features objects", lambda o: by_name(f("algo.transformation.ocel.features.objects.algorithm")(o)), slow=True)
    O("ocel features both", lambda o: by_name(f("algo.transformation.ocel.features.events_objects.algorithm")(o)), slow=True)
    O("ocel description", lambda o: f("algo.transformation.ocel.description.algorithm")(o))
    O("ocel cleaned tables", lambda o: f("objects.ocel.exporter.util.clean_dataframes", "get_dataframes_from_ocel")(o))
    O("ocel statistics", lambda o: [f("statistics.ocel." + m, fn)(o) for m, fn in (("ot_activities", "get_object_type_activities"), ("objects_ot_count", "get_objects_ot_count"),
                                                                                 ("act_utils", "find_associations_from_ocel"), ("edge_metrics", "find_associations_per_edge"))])
    # ---------------------------------------------------------------- writers: what they are given stays as it is
    O("write ocel json", lambda o: written(lambda p: pm4py.write_ocel_json(o, p), ("f.jsonocel",)))
    O("write ocel xml", lambda o: written(lambda p: pm4py.write_ocel_xml(o, p), ("f.xmlocel",)))
    O("write ocel csv", lambda o: written(lambda p, q: pm4py.write_ocel_csv(o, p, q), ("f.csv", "g.csv")))
    O("write ocel sqlite", lambda o: bool(written(lambda p: pm4py.write_ocel_sqlite(o, p), ("f.sqlite",))))
    O("write ocel2 json", lambda o: written(lambda p: pm4py.write.write_ocel2_json(o, p), ("f.json",)))
    O("write ocel2 xml", lambda o: written(lambda p: pm4py.write_ocel2_xml(o, p), ("f.xml",)))
    O("write ocel2 sqlite", lambda o: bool(written(lambda p: pm4py.write_ocel2_sqlite(o, p), ("f.sqlite",))))
    S("write xes", lambda E, X: written(lambda p: pm4py.write_xes(X, p), ("f.xes",)))
    S("write xes lines", lambda E, X: written(lambda p: f("objects.log.exporter.xes.exporter")(E.log, p, variant=f("objects.log.exporter.xes.exporter", "Variants").LINE_BY_LINE), ("f.xes",)))
    S("write pnml", lambda E, X: bool(written(lambda p: pm4py.write_pnml(E.net, E.im, E.fm, p), ("f.pnml",))))
    S("write ptml", lambda E, X: bool(written(lambda p: pm4py.write_ptml(E.tree, p), ("f.ptml",))))
    S("write dfg", lambda E, X: written(lambda p: pm4py.write_dfg(*E.dfg, p), ("f.dfg",)))
    S("write bpmn", lambda E, X: bool(written(lambda p: pm4py.write_bpmn(pm4py.convert_to_bpmn(E.tree), p, auto_layout=False), ("f.bpmn",))))
