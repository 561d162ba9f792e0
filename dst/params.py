"""algorithms called with a dictionary of parameters given by the caller"""
import importlib


def draw(g):
    """a dictionary a caller may use for all calls"""
    P = {}
    if g.flag(0.4):
        P["pm4py:param:activity_key"] = g.pick(["concept:name", "org:resource"])
    if g.flag(0.3):
        P["pm4py:param:timestamp_key"] = "time:timestamp"
    if g.flag(0.3):
        P["pm4py:param:start_timestamp_key"] = g.pick(["start_timestamp", "time:timestamp"])
    if g.flag(0.2):
        P["pm4py:param:case_id_key"] = "case:concept:name"
    if g.flag(0.2):
        P["pm4py:param:resource_key"] = "org:resource"
    if g.flag(0.2):
        P["ret_tuple_as_trans_desc"] = g.flag(0.5)
    return P


def _ali(al):
    if not isinstance(al, list):
        al = [al]
    return [a if a is None else (a["cost"] // 10000, round(a["fitness"], 6)) for a in al]


def _tbr(rs):
    return [{k: v for k, v in r.items() if k in ("trace_is_fit", "trace_fitness", "missing_tokens", "consumed_tokens", "remaining_tokens",
                                                  "produced_tokens")} for r in rs]


def _m(p):
    return importlib.import_module("pm4py." + p)


def ops():
    A = "algo.conformance.alignments.petri_net.algorithm"
    T = "algo.conformance.alignments.process_tree.variants.search_graph_pt"
    out = {}

    def add(f):
        out[f.__name__] = f
        return f

    def variant(name, v):
        def f(E, P):
            return _ali(_m(A).apply_log(E.log, E.net, E.im, E.fm, variant=_m("algo.conformance.alignments.petri_net.variants." + v), parameters=P))
        out[name] = f
    variant("align_a_star", "state_equation_a_star")
    variant("align_dijkstra", "dijkstra_no_heuristics")
    variant("align_less_memory", "dijkstra_less_memory")
    variant("align_discounted", "discounted_a_star")
    variant("align_tweaked", "tweaked_state_equation_a_star")

    @add
    def align_trace(E, P):
        return _ali(_m(A).apply_trace(E.log[0], E.net, E.im, E.fm, parameters=P))

    @add
    def align_trace_variant(E, P):
        return _m("algo.conformance.alignments.petri_net.variants.dijkstra_no_heuristics").apply(E.log[-1], E.net, E.im, E.fm, parameters=P)["cost"]

    @add
    def align_decomposed(E, P):
        # costs of decomposed alignments depend on the decomposition: only which cases have one
        r = _m("algo.conformance.alignments.decomposed.algorithm").apply(E.log, E.net, E.im, E.fm, parameters=P)
        return [(a is None) or (a["cost"], a["bwc"]) for a in r]

    @add
    def align_tree(E, P):
        r = _m(T).apply(E.log, E.tree, parameters=P)
        return [a["cost"] for a in r]

    @add
    def align_tree_approximated(E, P):
        r = _m("algo.conformance.alignments.process_tree.variants.approximated.matrix_lp").apply(E.log, E.tree, parameters=P)
        return [a and a["cost"] for a in r]

    @add
    def align_tree_original(E, P):
        r = _m("algo.conformance.alignments.process_tree.variants.approximated.original").apply(E.log, E.tree, parameters=P)
        return [a["cost"] for a in r]

    @add
    def align_dfg(E, P):
        return [a["cost"] for a in _m("algo.conformance.alignments.dfg.algorithm").apply(E.log, *E.dfg, parameters=P)]

    @add
    def align_edit(E, P):
        return [a["cost"] for a in _m("algo.conformance.alignments.edit_distance.algorithm").apply(E.log, E.log, parameters=P)]

    @add
    def tbr(E, P):
        return _tbr(_m("algo.conformance.tokenreplay.algorithm").apply(E.log, E.net, E.im, E.fm, parameters=P))

    @add
    def tbr_df(E, P):
        return _tbr(_m("algo.conformance.tokenreplay.algorithm").apply(E.df, E.net, E.im, E.fm, parameters=P))

    @add
    def tbr_backwards(E, P):
        M = _m("algo.conformance.tokenreplay.algorithm")
        return _tbr(M.apply(E.log, E.net, E.im, E.fm, variant=M.Variants.BACKWARDS, parameters=P))

    @add
    def tbr_diagnostics(E, P):
        M = _m("algo.conformance.tokenreplay.variants.token_replay")
        return M.get_diagnostics_dataframe(E.log, M.apply(E.log, E.net, E.im, E.fm, parameters=P), parameters=P)

    @add
    def fitness(E, P):
        M = _m("algo.evaluation.replay_fitness.algorithm")
        return M.apply(E.log, E.net, E.im, E.fm, variant=M.Variants.TOKEN_BASED, parameters=P)

    @add
    def fitness_align(E, P):
        M = _m("algo.evaluation.replay_fitness.algorithm")
        return M.apply(E.log, E.net, E.im, E.fm, variant=M.Variants.ALIGNMENT_BASED, parameters=P)["averageFitness"]

    @add
    def precision(E, P):
        M = _m("algo.evaluation.precision.algorithm")
        return M.apply(E.log, E.net, E.im, E.fm, variant=M.Variants.ETCONFORMANCE_TOKEN, parameters=P)

    @add
    def precision_align(E, P):
        M = _m("algo.evaluation.precision.algorithm")
        return M.apply(E.log, E.net, E.im, E.fm, variant=M.Variants.ALIGN_ETCONFORMANCE, parameters=P)

    @add
    def generalization(E, P):
        return _m("algo.evaluation.generalization.algorithm").apply(E.log, E.net, E.im, E.fm, parameters=P)

    def both(name, mod, *args, **kw):
        def f(E, P):
            return _m(mod).apply(E.log, *args, parameters=P, **kw)

        def fd(E, P):
            return _m(mod).apply(E.df, *args, parameters=P, **kw)
        out[name] = f
        out[name + "_df"] = fd
    both("dfg", "algo.discovery.dfg.algorithm")
    both("alpha", "algo.discovery.alpha.algorithm")
    both("inductive", "algo.discovery.inductive.algorithm")
    both("heuristics", "algo.discovery.heuristics.algorithm")
    both("footprints", "algo.discovery.footprints.algorithm")
    both("log_skeleton", "algo.discovery.log_skeleton.algorithm")
    both("temporal_profile", "algo.discovery.temporal_profile.algorithm")
    both("transition_system", "algo.discovery.transition_system.algorithm")
    both("declare", "algo.discovery.declare.algorithm")
    both("batches", "algo.discovery.batches.algorithm")
    both("self_distance", "algo.discovery.minimum_self_distance.algorithm")
    both("log_to_trie", "algo.transformation.log_to_trie.algorithm")
    both("log_to_interval_tree", "algo.transformation.log_to_interval_tree.algorithm")
    both("features", "algo.transformation.log_to_features.algorithm")
    both("correlation", "algo.discovery.correlation_mining.algorithm")
    both("roles", "algo.organizational_mining.roles.algorithm")
    both("to_stream", "objects.conversion.log.variants.to_event_stream")
    both("to_dataframe", "objects.conversion.log.variants.to_data_frame")
    both("to_log", "objects.conversion.log.variants.to_event_log")
    both("eventually_follows", "statistics.eventually_follows.log.get")
    both("start_activities", "statistics.start_activities.log.get")

    for k in [x for x in out if x.startswith(("eventually_follows", "start_activities"))]:
        del out[k]

    @add
    def variants(E, P):
        M = _m("statistics.traces.generic.log.case_statistics")
        return M.get_variant_statistics(E.log, parameters=P), M.get_cases_description(E.log, parameters=P), M.get_median_case_duration(E.log, parameters=P)

    @add
    def variants_df(E, P):
        M = _m("statistics.traces.generic.pandas.case_statistics")
        return M.get_variant_statistics(E.df, parameters=P), M.get_cases_description(E.df, parameters=P)

    @add
    def sojourn(E, P):
        return _m("statistics.service_time.log.get").apply(E.log, parameters=P), _m("statistics.service_time.pandas.get").apply(E.df, parameters=P)

    @add
    def concurrent(E, P):
        return _m("statistics.concurrent_activities.log.get").apply(E.log, parameters=P), \
            _m("statistics.concurrent_activities.pandas.get").apply(E.df, parameters=P)

    @add
    def follows(E, P):
        return _m("statistics.eventually_follows.log.get").apply(E.log, parameters=P), _m("statistics.eventually_follows.pandas.get").apply(E.df, parameters=P)

    @add
    def start_end(E, P):
        return _m("statistics.start_activities.log.get").get_start_activities(E.log, parameters=P), \
            _m("statistics.end_activities.pandas.get").get_end_activities(E.df, parameters=P)

    @add
    def filter_values(E, P):
        M = _m("algo.filtering.log.attributes.attributes_filter")
        return M.apply_events(E.log, E.acts[:2], parameters=P)

    @add
    def filter_variants(E, P):
        return _m("algo.filtering.log.variants.variants_filter").filter_log_variants_percentage(E.log, 0.5, parameters=P)

    @add
    def filter_auto(E, P):
        return _m("algo.filtering.log.attributes.attributes_filter").filter_log_relative_occurrence_event_attribute(E.log, 0.3, parameters=P)

    @add
    def filter_paths(E, P):
        return _m("algo.filtering.log.paths.paths_filter").apply(E.log, [(E.acts[0], E.acts[1])], parameters=P), \
            _m("algo.filtering.pandas.paths.paths_filter").apply(E.df, [(E.acts[0], E.acts[1])], parameters=P)

    @add
    def filter_ltl(E, P):
        M, N = _m("algo.filtering.log.ltl.ltl_checker"), _m("algo.filtering.pandas.ltl.ltl_checker")
        return M.eventually_follows(E.log, E.acts[:2], parameters=P), N.eventually_follows(E.df, E.acts[:2], parameters=P), \
            M.four_eyes_principle(E.log, *E.acts[:2], parameters=P), N.four_eyes_principle(E.df, *E.acts[:2], parameters=P)

    @add
    def filter_time(E, P):
        return _m("algo.filtering.log.cases.case_filter").filter_case_performance(E.log, 0, 50000, parameters=P)

    @add
    def prefixes(E, P):
        return _m("objects.log.util.get_prefixes").get_log_with_log_prefixes(E.log, parameters=P)

    @add
    def networkx(E, P):
        return _m("objects.conversion.log.variants.to_nx").apply(E.log, parameters=P)

    @add
    def perf_spectrum(E, P):
        M = _m("algo.discovery.performance_spectrum.algorithm")
        return M.apply(E.log, E.acts[:2], parameters=P), M.apply(E.df, E.acts[:2], parameters=P)

    @add
    def perf_spectrum_disconnected(E, P):
        M = _m("algo.discovery.performance_spectrum.algorithm")
        return M.apply(E.log, E.acts[:2], variant=M.Variants.LOG_DISCONNECTED, parameters=P), \
            M.apply(E.df, E.acts[:2], variant=M.Variants.DATAFRAME_DISCONNECTED, parameters=P)

    @add
    def heuristics_plus(E, P):
        M = _m("algo.discovery.heuristics.algorithm")
        return M.apply_heu(E.log, variant=M.Variants.PLUSPLUS, parameters=P), M.apply(E.df, variant=M.Variants.PLUSPLUS, parameters=P)

    @add
    def handover(E, P):
        M = _m("algo.organizational_mining.sna.algorithm")
        return M.apply(E.log, variant=M.Variants.HANDOVER_LOG, parameters=P), M.apply(E.df, variant=M.Variants.HANDOVER_PANDAS, parameters=P)

    @add
    def describe_stream(E, P):
        return _m("algo.querying.llm.abstractions.stream_to_descr").apply(E.log, parameters=P)

    @add
    def describe_dfg(E, P):
        return _m("algo.querying.llm.abstractions.log_to_dfg_descr").apply(E.log, parameters=P)

    @add
    def describe_variants(E, P):
        return _m("algo.querying.llm.abstractions.log_to_variants_descr").apply(E.df, parameters=P)

    @add
    def decision_features(E, P):
        return _m("algo.decision_mining.algorithm").get_decision_points(E.net, parameters=P)

    @add
    def skeleton_conformance(E, P):
        sk = _m("algo.discovery.log_skeleton.algorithm").apply(E.log, parameters=P)
        return _m("algo.conformance.log_skeleton.algorithm").apply(E.log, sk, parameters=P)

    @add
    def temporal_conformance(E, P):
        tp = _m("algo.discovery.temporal_profile.algorithm").apply(E.log, parameters=P)
        return _m("algo.conformance.temporal_profile.algorithm").apply(E.df, tp, parameters=P)

    @add
    def playout(E, P):
        return _m("algo.simulation.playout.petri_net.algorithm").apply(E.net, E.im, E.fm, parameters=P)[:20]

    @add
    def playout_tree(E, P):
        return _m("algo.simulation.playout.process_tree.algorithm").apply(E.tree, parameters=P)[:20]

    @add
    def tree_generator(E, P):
        return _m("algo.simulation.tree_generator.algorithm").apply(parameters=P)

    @add
    def tree_to_net(E, P):
        return _m("objects.conversion.process_tree.converter").apply(E.tree, parameters=P)

    @add
    def net_to_tree(E, P):
        return _m("objects.conversion.wf_net.converter").apply(E.net, E.im, E.fm, parameters=P)

    @add
    def dfg_to_net(E, P):
        return _m("objects.conversion.dfg.converter").apply(E.dfg[0], parameters={**P})

    @add
    def marking_equation(E, P):
        M = _m("algo.analysis.marking_equation.algorithm")
        return M.build(E.net, E.im, E.fm, parameters=P).solve()[0]

    @add
    def woflan(E, P):
        return _m("algo.analysis.woflan.algorithm").apply(E.net, E.im, E.fm, parameters={**P, "return_asap_when_not_sound": True, "print_diagnostics": False})

    @add
    def clustering(E, P):
        return [[t.attributes["concept:name"] for t in c] for c in _m("algo.clustering.profiles.algorithm").apply(E.log, parameters=P)]

    @add
    def resources(E, P):
        M = _m("algo.organizational_mining.local_diagnostics.algorithm")
        return M.apply_from_clustering_or_roles(E.log, {"g": {r: 1 for r in E.res}}, parameters=P)
    return out
