"""A catalogue of public operations on shared inputs, with a canonical form of what they return.

An entry draws its arguments once and returns a closure over an environment: the same closure can be applied to equal environments,
by several callers, in several histories or time zones.
"""
import datetime
import re
import enum
import math

from . import gen

UTC = datetime.timezone.utc
OPS = []


class Op:
    def __init__(self, name, make, rnd, slow, mut=False):
        self.name, self.make, self.rnd, self.slow = name, make, rnd, slow
        self.mut = mut      # enriches the given object in place and returns it


def op(name, rnd=False, slow=False):
    def deco(f):
        OPS.append(Op(name, f, rnd, slow))
        return f
    return deco


# ------------------------------------------------------------------ inputs
class Env:
    """log, df, net, tree, dfg, ocel: built from a drawn description, so that equal copies can be made"""

    def __init__(self, d):
        import pm4py
        from pm4py.objects.log.obj import EventLog, Trace, Event
        self.d = d
        log = EventLog()
        log.attributes["concept:name"] = "L"
        for i, (ca, evs) in enumerate(d["cases"]):
            tr = Trace(attributes={"concept:name": f"case{i:03d}", **ca})
            for a, st, ts, r, cost in evs:
                ev = Event({"concept:name": a, "time:timestamp": ts, "start_timestamp": st, "org:resource": r,
                            "org:group": "g" + r[-1], "cost": cost})
                if not d["start"]:
                    del ev["start_timestamp"]
                tr.append(ev)
            log.append(tr)
        self.log = log
        self.df = pm4py.convert_to_dataframe(log)
        self.tree = make_tree(d["tree"])
        from pm4py.objects.conversion.process_tree.variants import to_petri_net
        self.net, self.im, self.fm = to_petri_net.apply(self.tree)
        self.dfg = ({k: v for k, v in d["dfg"]}, {k: v for k, v in d["sa"]}, {k: v for k, v in d["ea"]})
        self.ocel = pm4py.convert_log_to_ocel(log, object_types=["org:resource", "case:concept:name"],
                                              additional_event_attributes=["cost"]) if d["ocel"] else None
        self.acts = d["acts"]
        self.res = d["res"]

    def src(self, k):
        return self.log if k == "log" else self.df

    def pairs(self):
        """pairs of related cases, for the functions that relate two logs"""
        import pandas as pd
        n = [t.attributes["concept:name"] for t in self.log]
        return pd.DataFrame({"case:concept:name_LEFT": n, "case:concept:name_RIGHT": n[1:] + n[:1]})

    def inputs(self):
        return {"log": self.log, "df": self.df, "tree": self.tree, "net": (self.net, self.im, self.fm), "dfg": self.dfg, "ocel": self.ocel}


def describe(g, near=None, ncase=(1, 5), ocel=True):
    """near: instants around which the cases are placed"""
    acts = list("abcdef")[:g.int(2, 6)]
    res = ["r1", "r2", "r3"][:g.int(1, 3)]
    base = near or [datetime.datetime(2024, 1, 1, 8, tzinfo=UTC)]
    shapes = [[g.pick(acts) for _ in range(g.int(1, 5))] for _ in range(3)]
    cases = []
    for _ in range(g.int(*ncase)):
        t = g.pick(base) + datetime.timedelta(seconds=g.pick([0, 60, 3600, 5400, 86400, 7]) * g.int(-3, 5))
        evs = []
        w = list(g.pick(shapes)) if g.flag(0.7) else [g.pick(acts) for _ in range(g.int(1, 5))]
        for a in w:
            st = t
            t = t + datetime.timedelta(seconds=g.pick([0, 1, 60, 600, 3600, 40000]))
            evs.append((a, st, t, g.pick(res), float(g.int(0, 9))))
            t = t + datetime.timedelta(seconds=g.pick([1, 30, 3600, 90000]))
        cases.append(({"kind": g.pick(["x", "y"]), "amount": g.int(1, 9)}, evs))
    tr = spec_tree(g, acts, 2)
    dfg, sa, ea = {}, {}, {}
    for _, evs in cases:
        w = [e[0] for e in evs]
        sa[w[0]] = sa.get(w[0], 0) + 1
        ea[w[-1]] = ea.get(w[-1], 0) + 1
        for p in zip(w, w[1:]):
            dfg[p] = dfg.get(p, 0) + 1
    return {"cases": cases, "tree": tr, "dfg": sorted(dfg.items()), "sa": sorted(sa.items()), "ea": sorted(ea.items()),
            "acts": acts, "res": res, "ocel": ocel, "start": not g.flag(0.25)}


def spec_tree(g, acts, depth):
    if depth == 0 or g.flag(0.2):
        return g.pick(acts + [None]) if depth < 2 else g.pick(acts)
    o = g.pick(["->", "->", "X", "+", "*"])
    return (o, tuple(spec_tree(g, acts, depth - 1) for _ in range(3 if o != "*" and g.flag(0.25) else 2)))


def make_tree(s):
    from pm4py.objects.process_tree.obj import ProcessTree, Operator
    if s is None or isinstance(s, str):
        return ProcessTree(label=s)
    t = ProcessTree(operator=Operator(s[0]))
    for c in s[1]:
        k = make_tree(c)
        k.parent = t
        t.children.append(k)
    return t


# ------------------------------------------------------------------ canonical forms
def num(v):
    v = float(v)
    if math.isnan(v):
        return "nan"
    if math.isinf(v):
        return repr(v)
    if v == int(v) and abs(v) < 1e15:
        return int(v)
    return float(f"{v:.9g}")


def canon_net(net, im, fm):
    """names of places and transitions do not count: colours refined by their neighbours"""
    from pm4py.objects.petri_net.obj import PetriNet
    nodes = list(net.places) + list(net.transitions)
    col = {}
    for n in nodes:
        if isinstance(n, PetriNet.Place):
            col[n] = ("p", int((im or {}).get(n, 0)), int((fm or {}).get(n, 0)))
        else:
            col[n] = ("t", n.label)
    import hashlib
    h = lambda x: hashlib.md5(repr(x).encode()).hexdigest()
    col = {n: h(c) for n, c in col.items()}
    for _ in range(5):
        col = {n: h((col[n], sorted((a.weight, type(a).__name__, col[a.source]) for a in n.in_arcs),
                     sorted((a.weight, type(a).__name__, col[a.target]) for a in n.out_arcs))) for n in nodes}
    return ("net", len(net.places), sorted(repr(t.label) for t in net.transitions), len(net.arcs), h(sorted(col.values())))


def norm(x, depth=0):
    import numpy as np
    import pandas as pd
    if depth > 12:
        return "..."
    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if isinstance(x, enum.Enum):
        return str(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return num(x)
    if isinstance(x, (datetime.datetime, pd.Timestamp, np.datetime64)):
        t = pd.Timestamp(x)
        if t is pd.NaT:
            return "NaT"
        return (t.tz_convert("UTC") if t.tzinfo else t).isoformat() + ("" if t.tzinfo else " naive")
    if isinstance(x, (datetime.timedelta, np.timedelta64, pd.Timedelta)):
        return "td", num(pd.Timedelta(x).total_seconds())
    if x is pd.NaT or x is getattr(pd, "NA", None):
        return "NaT"
    from pm4py.objects.log.obj import EventLog, Trace, Event, EventStream
    from pm4py.objects.petri_net.obj import PetriNet, Marking
    from pm4py.objects.process_tree.obj import ProcessTree
    d = depth + 1
    if isinstance(x, EventLog):
        return ("log", [norm(t, d) for t in x], norm(dict(x.attributes), d))
    if isinstance(x, Trace):
        return ("trace", norm(dict(x.attributes), d), [norm(e, d) for e in x])
    if isinstance(x, EventStream):
        return ("stream", [norm(e, d) for e in x])
    if isinstance(x, Event):
        return ("event", norm(dict(x), d))
    if isinstance(x, pd.DataFrame):
        return ("df", [str(c) for c in x.columns], [[norm(v, d) for v in r] for r in x.itertuples(index=False, name=None)])
    if isinstance(x, pd.Series):
        return ("series", [norm(v, d) for v in x.tolist()])
    if isinstance(x, pd.Index):
        return ("index", [norm(v, d) for v in x.tolist()])
    if isinstance(x, np.ndarray):
        return ("array", [norm(v, d) for v in x.tolist()])
    if isinstance(x, tuple) and len(x) == 3 and isinstance(x[0], PetriNet):
        return canon_net(*x)
    if isinstance(x, PetriNet):
        return canon_net(x, None, None)
    if isinstance(x, Marking):
        return ("marking", sorted((str(p.name), int(n)) for p, n in x.items()))
    if isinstance(x, (PetriNet.Place, PetriNet.Transition)):
        return (type(x).__name__, x.name, getattr(x, "label", None))
    if isinstance(x, ProcessTree):
        return ("tree", gen.norm_tree(x))
    n = type(x).__name__
    if n in ("BPMN",):
        deg = lambda v: (len(v.get_in_arcs()), len(v.get_out_arcs()))
        return ("bpmn", sorted((type(v).__name__, v.get_name() if type(v).__name__ == "Task" else "", deg(v)) for v in x.get_nodes()), len(x.get_flows()))
    if n == "OCEL":
        return ("ocel", [norm(f, d) for f in (x.events, x.objects, x.relations)])
    if n == "TransitionSystem":
        return ("ts", sorted(str(s.name) for s in x.states), sorted((str(t.from_state.name), str(t.name), str(t.to_state.name)) for t in x.transitions))
    if n == "Trie":
        return ("trie", x.label, bool(x.final), [norm(c, d) for c in sorted(x.children, key=lambda c: str(c.label))])
    if n == "HeuristicsNet":
        return ("heu", norm(x.dependency_matrix, d), norm(x.activities_occurrences, d), norm(x.performance_matrix, d),
                sorted(x.nodes), norm(x.start_activities, d), norm(x.end_activities, d))
    if n in ("DiGraph", "MultiDiGraph", "Graph"):
        return ("graph", sorted(repr(norm(v, d)) for v in x.nodes), sorted(repr((norm(a, d), norm(b, d)) if x.is_directed() else sorted((repr(norm(a, d)), repr(norm(b, d))))) for a, b in x.edges()))
    if hasattr(x, "operator") and hasattr(x, "children"):
        return (n, repr(x))
    if isinstance(x, dict):
        return ("dict", sorted(((norm(k, d), norm(v, d)) for k, v in x.items()), key=repr))
    if isinstance(x, (set, frozenset)):
        return ("set", sorted((norm(v, d) for v in x), key=repr))
    if isinstance(x, (list, tuple)) or n in ("dict_values", "dict_keys", "generator", "map", "filter"):
        return ("seq", [norm(v, d) for v in x])
    if n in ("Tree", "IntervalTree"):
        return ("itree", sorted(repr((norm(i.begin, d), norm(i.end, d))) for i in x))
    if hasattr(x, "__dict__"):
        return (n, norm({k: v for k, v in vars(x).items() if not k.startswith("__")}, d))
    return (n, re.sub(r"0x[0-9a-f]+", "0x", str(x)))


def diff(a, b):
    """where two canonical forms differ, in short"""
    path = []
    while True:
        if type(a) is not type(b) or not isinstance(a, (list, tuple)):
            return f"{'/'.join(map(str, path))}: {str(a)[:160]} | {str(b)[:160]}"
        if len(a) != len(b):
            return f"{'/'.join(map(str, path))}: {len(a)} and {len(b)} items: {str(a)[:200]} | {str(b)[:200]}"
        for i, (u, v) in enumerate(zip(a, b)):
            if u != v:
                path.append(i)
                a, b = u, v
                break
        else:
            return "equal"


# ------------------------------------------------------------------ operations
def _src(g):
    return g.pick(["log", "df"])


def simple(name, fn, rnd=False, slow=False, only=None, mut=False):
    def make(g, d):
        k = only or _src(g)
        return lambda E: fn(E, E.src(k))
    OPS.append(Op(name, make, rnd, slow, mut))


def _register():
    import pm4py
    S = simple
    # statistics
    S("start activities", lambda E, L: pm4py.get_start_activities(L))
    S("end activities", lambda E, L: pm4py.get_end_activities(L))
    S("event attributes", lambda E, L: sorted(pm4py.get_event_attributes(L)))
    S("trace attributes", lambda E, L: sorted(pm4py.get_trace_attributes(L)))
    S("attribute values", lambda E, L: pm4py.get_event_attribute_values(L, "org:resource"))
    S("trace attribute values", lambda E, L: pm4py.get_trace_attribute_values(L, "case:kind" if L is E.df else "kind"))
    S("variants", lambda E, L: {k: (v if isinstance(v, int) else len(v)) for k, v in pm4py.get_variants(L).items()})
    S("stochastic language", lambda E, L: pm4py.get_stochastic_language(L))
    S("self distances", lambda E, L: pm4py.get_minimum_self_distances(L))
    S("self distance witnesses", lambda E, L: pm4py.get_minimum_self_distance_witnesses(L))
    S("case arrival", lambda E, L: pm4py.get_case_arrival_average(L))
    S("rework", lambda E, L: pm4py.get_rework_cases_per_activity(L))
    S("case overlap", lambda E, L: pm4py.get_case_overlap(L))
    S("cycle time", lambda E, L: pm4py.get_cycle_time(L))
    S("service time", lambda E, L: pm4py.get_service_time(L, start_timestamp_key="start_timestamp"))
    S("durations", lambda E, L: pm4py.get_all_case_durations(L))
    S("business durations", lambda E, L: pm4py.get_all_case_durations(L, business_hours=True))
    S("case duration", lambda E, L: pm4py.get_case_duration(L, "case000"))
    S("position summary", lambda E, L: pm4py.get_activity_position_summary(L, E.acts[0]))
    S("split by variant", lambda E, L: [v for v, _ in pm4py.split_by_process_variant(E.df)])
    S("variant durations", lambda E, L: pm4py.get_variants_paths_duration(E.df))
    # discovery
    S("dfg", lambda E, L: pm4py.discover_dfg(L))
    S("performance dfg", lambda E, L: pm4py.discover_performance_dfg(L))
    S("business performance dfg", lambda E, L: pm4py.discover_performance_dfg(L, business_hours=True))
    S("alpha", lambda E, L: pm4py.discover_petri_net_alpha(L))
    S("alpha+", lambda E, L: pm4py.discover_petri_net_alpha_plus(E.log))
    S("inductive tree", lambda E, L: pm4py.discover_process_tree_inductive(L))
    S("inductive net", lambda E, L: pm4py.discover_petri_net_inductive(L))
    S("inductive noise", lambda E, L: pm4py.discover_process_tree_inductive(L, noise_threshold=0.2))
    S("inductive dfg", lambda E, L: pm4py.discover_process_tree_inductive(pm4py.discover_dfg_typed(E.df)))
    S("heuristics net", lambda E, L: pm4py.discover_heuristics_net(L))
    S("heuristics petri net", lambda E, L: pm4py.discover_petri_net_heuristics(L))
    S("footprints log", lambda E, L: pm4py.discover_footprints(L))
    S("footprints tree", lambda E, L: pm4py.discover_footprints(E.tree))
    S("footprints net", lambda E, L: pm4py.discover_footprints(E.net, E.im, E.fm))
    S("eventually follows", lambda E, L: pm4py.discover_eventually_follows_graph(L))
    S("bpmn", lambda E, L: pm4py.discover_bpmn_inductive(L))
    S("transition system", lambda E, L: pm4py.discover_transition_system(L))
    S("prefix tree", lambda E, L: pm4py.discover_prefix_tree(L))
    S("temporal profile", lambda E, L: pm4py.discover_temporal_profile(L))
    S("log skeleton", lambda E, L: pm4py.discover_log_skeleton(L))
    S("declare", lambda E, L: pm4py.discover_declare(L))
    S("powl", lambda E, L: repr(pm4py.discover_powl(L)))
    S("batches", lambda E, L: pm4py.discover_batches(L))
    # conformance
    S("tbr", lambda E, L: [{k: v for k, v in r.items() if k in ("trace_is_fit", "trace_fitness", "missing_tokens", "consumed_tokens",
                                                                "remaining_tokens", "produced_tokens")}
                           for r in pm4py.conformance_diagnostics_token_based_replay(L, E.net, E.im, E.fm)])
    S("tbr fitness", lambda E, L: pm4py.fitness_token_based_replay(L, E.net, E.im, E.fm))
    S("tbr precision", lambda E, L: pm4py.precision_token_based_replay(L, E.net, E.im, E.fm))
    S("generalization", lambda E, L: pm4py.generalization_tbr(L, E.net, E.im, E.fm))
    S("alignments", lambda E, L: [int(r["cost"] // 10000) for r in pm4py.conformance_diagnostics_alignments(L, E.net, E.im, E.fm)])
    S("alignment fitness", lambda E, L: pm4py.fitness_alignments(L, E.net, E.im, E.fm)["averageFitness"])
    S("alignment precision", lambda E, L: pm4py.precision_alignments(L, E.net, E.im, E.fm))
    S("tree alignments", lambda E, L: [r["cost"] for r in pm4py.conformance_diagnostics_alignments(L, E.tree)])
    S("dfg alignments", lambda E, L: [r["cost"] for r in pm4py.conformance_diagnostics_alignments(L, *E.dfg)])
    S("footprints conformance", lambda E, L: pm4py.fitness_footprints(L, E.tree))
    S("footprints precision", lambda E, L: pm4py.precision_footprints(L, E.tree))
    S("temporal conformance", lambda E, L: pm4py.conformance_temporal_profile(L, pm4py.discover_temporal_profile(E.log), zeta=0.5))
    S("declare conformance", lambda E, L: pm4py.conformance_declare(L, pm4py.discover_declare(E.log)))
    S("log skeleton conformance", lambda E, L: pm4py.conformance_log_skeleton(L, pm4py.discover_log_skeleton(E.log)))
    S("fitting", lambda E, L: pm4py.check_is_fitting(E.log[0], E.net, E.im, E.fm))
    S("soundness", lambda E, L: pm4py.check_soundness(E.net, E.im, E.fm)[0])
    # filtering
    S("filter start", lambda E, L: pm4py.filter_start_activities(L, [E.acts[0]]))
    S("filter end", lambda E, L: pm4py.filter_end_activities(L, [E.acts[0]], retain=False))
    S("filter values", lambda E, L: pm4py.filter_event_attribute_values(L, "concept:name", E.acts[:2], level="event"))
    S("filter values cases", lambda E, L: pm4py.filter_event_attribute_values(L, "org:resource", [E.res[0]], level="case"))
    S("filter trace values", lambda E, L: pm4py.filter_trace_attribute_values(L, "case:kind" if L is E.df else "kind", ["x"]))
    S("filter variants", lambda E, L: pm4py.filter_variants(L, list(pm4py.get_variants(E.log))[:1]))
    S("filter df relation", lambda E, L: pm4py.filter_directly_follows_relation(L, [(E.acts[0], E.acts[1])]))
    S("filter ef relation", lambda E, L: pm4py.filter_eventually_follows_relation(L, [(E.acts[0], E.acts[1])], retain=False))
    S("filter size", lambda E, L: pm4py.filter_case_size(L, 2, 4))
    S("filter performance", lambda E, L: pm4py.filter_case_performance(L, 0, 90000))
    S("filter rework", lambda E, L: pm4py.filter_activities_rework(L, E.acts[0], 1))
    S("filter path performance", lambda E, L: pm4py.filter_paths_performance(L, (E.acts[0], E.acts[1]), 0, 10000))
    S("filter top k", lambda E, L: pm4py.filter_variants_top_k(L, 2))
    S("filter coverage", lambda E, L: pm4py.filter_variants_by_coverage_percentage(L, 0.3))
    S("filter prefixes", lambda E, L: pm4py.filter_prefixes(L, E.acts[0]))
    S("filter suffixes", lambda E, L: pm4py.filter_suffixes(L, E.acts[0]))
    S("filter between", lambda E, L: pm4py.filter_between(L, E.acts[0], E.acts[1]))
    S("filter four eyes", lambda E, L: pm4py.filter_four_eyes_principle(L, E.acts[0], E.acts[1]))
    S("filter different resources", lambda E, L: pm4py.filter_activity_done_different_resources(L, E.acts[0]))
    S("filter segments", lambda E, L: pm4py.filter_trace_segments(L, [["...", E.acts[0], "..."]]))

    def time_range(g, d):
        k = _src(g)
        m = g.pick(["events", "traces_contained", "traces_intersecting"])
        t = d["cases"][0][1][0][2]
        lo, hi = t - datetime.timedelta(seconds=g.pick([0, 1800, 7200])), t + datetime.timedelta(seconds=g.pick([0, 1800, 7200, 90000]))
        f = "%Y-%m-%d %H:%M:%S"
        return lambda E: pm4py.filter_time_range(E.src(k), lo.strftime(f), hi.strftime(f), mode=m)
    OPS.append(Op("filter time", time_range, False, False))
    # further filters
    S("filter relative occurrence", lambda E, L: pm4py.filter_log_relative_occurrence_event_attribute(L, 0.4, "org:resource"))
    S("filter maximum coverage", lambda E, L: pm4py.filter_variants_by_maximum_coverage_percentage(L, 0.6))
    F = lambda name, mod, *args: S(name, lambda E, L: __import__("importlib").import_module("pm4py.algo.filtering.pandas." + mod).apply(E.df, *[a(E) if callable(a) else a for a in args]), only="df")
    F("between df", "between.between_filter", lambda E: E.acts[0], lambda E: E.acts[1])
    F("repetition df", "attr_value_repetition.filter", lambda E: E.res[0])
    F("activity split df", "activity_split.activity_split_filter", lambda E: E.acts[0])
    F("ends with df", "ends_with.ends_with_filter", lambda E: [(E.acts[0],), (E.acts[1],)])
    F("starts with df", "starts_with.starts_with_filter", lambda E: [(E.acts[0],), (E.acts[1],)])
    F("consecutive df", "consecutive_act_case_grouping.consecutive_act_case_grouping_filter")
    F("timestamp grouping df", "timestamp_case_grouping.timestamp_case_grouping_filter")

    def profiles(E, L):
        from pm4py.algo.organizational_mining.resource_profiles import algorithm as R
        a, b, r = "2020-01-01 00:00:00", "2030-01-01 00:00:00", E.res[0]
        return [f(L, a, b, r) for f in (R.distinct_activities, R.activity_completions, R.case_completions, R.fraction_case_completions,
                                        R.average_workload, R.multitasking, R.average_case_duration, R.social_position)] + \
            [R.average_duration_activity(L, a, b, r, E.acts[0]), R.activity_frequency(L, a, b, r, E.acts[0]),
             R.interaction_two_resources(L, a, b, r, E.res[-1])]
    S("resource profiles", profiles, slow=True)

    def labels(E, L):
        from pm4py.algo.label_splitting import algorithm as A
        return A.apply(L)
    S("label splitting", labels, slow=True)
    S("correlation mining", lambda E, L: __import__("pm4py.algo.discovery.correlation_mining.algorithm", fromlist=["x"]).apply(L))
    S("ilp", lambda E, L: pm4py.discover_petri_net_ilp(L), slow=True)
    S("sort log", lambda E, L: pm4py.hof.sort_log(E.log, key=lambda t: len(t)) if hasattr(pm4py, "hof") else None)
    S("filter function", lambda E, L: pm4py.filter_log(lambda t: len(t) > 2, E.log) if hasattr(pm4py, "filter_log") else None)
    S("footprints diagnostics", lambda E, L: pm4py.conformance_diagnostics_footprints(L, E.tree))
    S("footprints precision net", lambda E, L: pm4py.precision_footprints(L, E.net, E.im, E.fm))
    # nets
    S("reduce invisibles", lambda E, L: canon_net(pm4py.reduce_petri_net_invisibles(__import__("copy").deepcopy(E.net)), None, None))
    S("implicit places", lambda E, L: pm4py.reduce_petri_net_implicit_places(E.net, E.im, E.fm), mut=True)
    S("implicit places of a copy", lambda E, L: pm4py.reduce_petri_net_implicit_places(*__import__("copy").deepcopy((E.net, E.im, E.fm))))
    S("enabled", lambda E, L: pm4py.get_enabled_transitions(E.net, E.im))
    S("prefix replay", lambda E, L: pm4py.replay_prefix_tbr(E.acts[:1], E.net, E.im, E.fm))
    S("synchronous product", lambda E, L: [len(x) for x in (lambda n: (n[0].places, n[0].transitions, n[0].arcs))(
        pm4py.construct_synchronous_product_net(E.log[0], E.net, E.im, E.fm))])

    def extended(E, L):
        n = pm4py.construct_synchronous_product_net(E.log[0], E.net, E.im, E.fm)
        return int(pm4py.solve_extended_marking_equation(E.log[0], *n) // 10000)
    S("extended marking equation", extended)
    S("net type", lambda E, L: pm4py.convert_petri_net_type(E.net, E.im, E.fm, "classic"))
    S("clusters", lambda E, L: [len(x) for x in pm4py.cluster_log(L)], slow=True)

    def decisions(E, L):
        from pm4py.algo.decision_mining import algorithm as D
        ps = D.get_decision_points(E.net)
        return D.get_decisions_table(E.log, E.net, E.im, E.fm) if ps else None
    S("decision mining", decisions)

    def enrich(E, L):
        from pm4py.algo.conformance.tokenreplay.diagnostics import duration_diagnostics as D
        from pm4py.algo.conformance.tokenreplay import algorithm as T
        r = T.apply(E.log, E.net, E.im, E.fm, variant=T.Variants.TOKEN_REPLAY, parameters={"enable_pltr_fitness": True, "disable_variants": True})
        return [sorted((t.name if hasattr(t, "name") else str(t), norm(v)) for t, v in D.diagnose_from_trans_fitness(E.log, r[2]).items())]
    S("tbr duration diagnostics", enrich)

    def intervals(E, L):
        from pm4py.objects.log.util import interval_lifecycle as I
        lc = I.to_lifecycle(E.log, parameters={I.Parameters.START_TIMESTAMP_KEY: "start_timestamp"})
        return lc, I.to_interval(lc)
    S("intervals and lifecycle", intervals)
    S("lead and cycle time", lambda E, L: __import__("pm4py.objects.log.util.interval_lifecycle", fromlist=["x"]).assign_lead_cycle_time(E.log), mut=True)

    def sorting_(E, L):
        from pm4py.objects.log.util import sorting as X
        return X.sort_timestamp_log(E.log), X.sort_timestamp_log(E.log, reverse_sort=True)
    S("sort by time", sorting_)

    def process_cube(E, L):
        from pm4py.algo.querying.llm.abstractions import log_to_cols_descr as X
        return X.apply(E.df) is not None
    S("columns description", process_cube)
    # conversions and features
    S("to stream", lambda E, L: pm4py.convert_to_event_stream(L))
    S("to df", lambda E, L: pm4py.convert_to_dataframe(E.log))
    S("to log", lambda E, L: pm4py.convert_to_event_log(E.df))
    S("tree to bpmn", lambda E, L: pm4py.convert_to_bpmn(E.tree))
    S("net to tree", lambda E, L: pm4py.convert_to_process_tree(E.net, E.im, E.fm))
    S("net to bpmn", lambda E, L: pm4py.convert_to_bpmn(E.net, E.im, E.fm))
    S("bpmn to net", lambda E, L: pm4py.convert_to_petri_net(pm4py.convert_to_bpmn(E.tree)))
    S("reachability graph", lambda E, L: len(pm4py.convert_to_reachability_graph(E.net, E.im, E.fm).states))
    S("to networkx", lambda E, L: pm4py.convert_log_to_networkx(L))
    S("net to networkx", lambda E, L: len(pm4py.convert_petri_net_to_networkx(E.net, E.im, E.fm).edges))
    S("time intervals", lambda E, L: pm4py.convert_log_to_time_intervals(L))
    S("features", lambda E, L: pm4py.extract_features_dataframe(L))
    S("features df ops", lambda E, L: pm4py.extract_features_dataframe(E.df, include_case_id=True))
    S("temporal features", lambda E, L: pm4py.extract_temporal_features_dataframe(L))
    S("outcome", lambda E, L: pm4py.extract_outcome_enriched_dataframe(L))
    S("target next activity", lambda E, L: pm4py.extract_target_vector(E.log, "next_activity"))
    S("target remaining time", lambda E, L: pm4py.extract_target_vector(E.log, "remaining_time"))
    S("prefixes", lambda E, L: pm4py.get_prefixes_from_log(L, 2))
    S("artificial start end", lambda E, L: pm4py.insert_artificial_start_end(L), mut=True)
    S("service waiting", lambda E, L: pm4py.insert_case_service_waiting_time(L, start_timestamp_key="start_timestamp"), mut=True)
    S("arrival finish", lambda E, L: pm4py.insert_case_arrival_finish_rate(L), mut=True)
    S("emd", lambda E, L: pm4py.compute_emd(pm4py.get_stochastic_language(L), pm4py.get_stochastic_language(E.log)))
    S("simplicity", lambda E, L: pm4py.simplicity_petri_net(E.net, E.im, E.fm))
    S("marking equation", lambda E, L: pm4py.solve_marking_equation(E.net, E.im, E.fm))
    S("decomposition", lambda E, L: len(pm4py.maximal_decomposition(E.net, E.im, E.fm)))
    S("workflow net", lambda E, L: pm4py.check_is_workflow_net(E.net))
    S("project", lambda E, L: pm4py.project_on_event_attribute(L, "concept:name"))
    S("serialize", lambda E, L: pm4py.deserialize(pm4py.serialize(L)))
    # organisation
    S("handover", lambda E, L: pm4py.discover_handover_of_work_network(L))
    S("working together", lambda E, L: pm4py.discover_working_together_network(L))
    S("resource similarity", lambda E, L: pm4py.discover_activity_based_resource_similarity(L))
    S("subcontracting", lambda E, L: pm4py.discover_subcontracting_network(L))
    S("roles", lambda E, L: pm4py.discover_organizational_roles(L))
    S("network analysis", lambda E, L: pm4py.discover_network_analysis(E.df, "case:concept:name", "case:concept:name", "org:resource", "org:resource", "concept:name"))
    # text
    S("abstract dfg", lambda E, L: pm4py.llm.abstract_dfg(L))
    S("abstract variants", lambda E, L: pm4py.llm.abstract_variants(L))
    S("abstract stream", lambda E, L: pm4py.llm.abstract_event_stream(L))
    S("abstract attributes", lambda E, L: sorted(pm4py.llm.abstract_log_attributes(L).split("\n")))
    S("abstract case", lambda E, L: pm4py.llm.abstract_case(E.log[0]))
    S("abstract declare", lambda E, L: sorted("".join(sorted(x)) for x in pm4py.llm.abstract_declare(pm4py.discover_declare(E.log)).split("\n")))
    # object-centric
    O = lambda name, fn, **kw: S(name, lambda E, L: fn(E.ocel), only="log", **kw)
    O("ocel object types", pm4py.ocel_get_object_types)
    O("ocel flattening", lambda o: pm4py.ocel_flattening(o, "org:resource"))
    O("ocel activities", pm4py.ocel_object_type_activities)
    O("ocel counts", pm4py.ocel_objects_ot_count)
    O("ocel temporal summary", pm4py.ocel_temporal_summary)
    O("ocel objects summary", pm4py.ocel_objects_summary)
    O("ocel interactions", pm4py.ocel_objects_interactions_summary)
    O("ocdfg", pm4py.discover_ocdfg, slow=True)
    O("oc petri net", lambda o: sorted((k, canon_net(*v)) for k, v in pm4py.discover_oc_petri_net(o)["petri_nets"].items()), slow=True)
    O("objects graph", lambda o: pm4py.discover_objects_graph(o, "object_interaction"))
    O("ocel descendants", lambda o: pm4py.discover_objects_graph(o, "object_descendants"))
    O("ocel features", lambda o: pm4py.extract_ocel_features(o, "org:resource"), slow=True)
    O("ocel o2o", pm4py.ocel_o2o_enrichment, mut=True)
    O("ocel drop duplicates", pm4py.ocel_drop_duplicates, mut=True)
    O("ocel merge duplicates", pm4py.ocel_merge_duplicates, mut=True)
    O("ocel timedelta", pm4py.ocel_add_index_based_timedelta, mut=True)
    O("ocel filter types", lambda o: pm4py.filter_ocel_object_types(o, ["org:resource"]))
    O("ocel filter start", lambda o: pm4py.filter_ocel_start_events_per_object_type(o, "org:resource"))
    O("ocel filter time", lambda o: pm4py.filter_ocel_events_timestamp(o, "2024-01-01 00:00:00", "2024-03-31 01:30:00"))
    O("ocel filter cc", lambda o: pm4py.filter_ocel_cc_length(o, 2, 50), slow=True)
    O("ocel attribute names", pm4py.ocel_get_attribute_names)
    O("ocel filter event attribute", lambda o: pm4py.filter_ocel_event_attribute(o, "ocel:activity", ["a", "b"]))
    O("ocel filter object attribute", lambda o: pm4py.filter_ocel_object_attribute(o, "ocel:type", ["org:resource"]))
    O("ocel filter allowed", lambda o: pm4py.filter_ocel_object_types_allowed_activities(o, {"org:resource": ["a"], "case:concept:name": ["a", "b"]}))
    O("ocel filter per type", lambda o: pm4py.filter_ocel_object_per_type_count(o, {"org:resource": 1}))
    O("ocel filter end", lambda o: pm4py.filter_ocel_end_events_per_object_type(o, "org:resource"))
    O("ocel filter objects", lambda o: pm4py.filter_ocel_objects(o, ["r1", "case000"], level=2))
    O("ocel filter events", lambda o: pm4py.filter_ocel_events(o, list(o.events["ocel:eid"])[:2]))
    O("ocel filter cc object", lambda o: pm4py.filter_ocel_cc_object(o, "case000"), slow=True)
    O("ocel filter cc type", lambda o: pm4py.filter_ocel_cc_otype(o, "org:resource"), slow=True)
    O("ocel filter cc activity", lambda o: pm4py.filter_ocel_cc_activity(o, "a"), slow=True)
    O("ocel lifecycle", lambda o: pm4py.ocel_e2o_lifecycle_enrichment(o))
    O("ocel sort", lambda o: pm4py.ocel_sort_by_additional_column(o, "cost"), mut=True)
    O("ocel clusters", lambda o: {k: len(v) for k, v in pm4py.cluster_equivalent_ocel(o, "org:resource").items()}, slow=True)
    O("ocel networkx", lambda o: pm4py.convert_ocel_to_networkx(o))
    O("abstract ocel", lambda o: pm4py.llm.abstract_ocel(o))
    from . import catalogue2
    catalogue2.register(S, O)
    # random
    S("playout tree", lambda E, L: pm4py.play_out(E.tree), rnd=True, slow=True)
    S("playout net", lambda E, L: pm4py.play_out(E.net, E.im, E.fm), rnd=True, slow=True)
    S("playout dfg", lambda E, L: pm4py.play_out(*E.dfg), rnd=True, slow=True)
    S("sample cases", lambda E, L: pm4py.sample_cases(L, 2), rnd=True)
    S("split train test", lambda E, L: pm4py.split_train_test(L), rnd=True)
    S("extensive playout", lambda E, L: sorted(tuple(e["concept:name"] for e in t) for t in _extensive(E)), slow=True)


def _extensive(E):
    from pm4py.algo.simulation.playout.petri_net.variants import extensive
    return extensive.apply(E.net, E.im, E.fm, parameters={extensive.Parameters.MAX_TRACE_LENGTH: 4})


def fresh(d, seed, hashes=None):
    """an environment; equal ones for equal (d, seed)"""
    from . import seams
    seams.set_hash_seed(seed if hashes is None else hashes)
    seams.set_uuid_seed(seed)
    return Env(d)


def reseed(seed):
    import random
    import numpy
    from . import seams
    seams.set_hash_seed(seed)
    seams.set_uuid_seed(seed)
    random.seed(seed)
    numpy.random.seed(seed % 2 ** 32)


def outcome(call, E):
    """canonical form of the result or of the failure"""
    try:
        return norm(call(E))
    except Exception as e:
        return ("raised", type(e).__name__, str(e)[:200])


_done = []


def ops():
    if not _done:
        _done.append(1)
        _register()
    return OPS
