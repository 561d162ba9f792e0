"""C17: the logs simulated from a process tree contain only words of its language, complete and as many as requested."""
from dst import gen, ptlang

PROPERTY = "C17"
RUNS = {"quick": 10000, "thorough": 300000}
RULE = ("one run = one playout (basic, top-bottom or extensive) of a generated process tree with all operators (sequence, choice, "
        "parallel, or, interleaving, loops with and without exit child, silent and duplicate leaves) under seeded draws; "
        "non-trivial when >= 2 traces and >= 3 events were produced")
DISTINCT = "hash of the tree and of the traces"
REAL = ["pm4py.algo.simulation.playout.process_tree (all variants)", "pm4py.objects.process_tree.semantics", "random"]
STUB = ["draws: seeded per run; in part of the runs skewed towards the ends of their range"]
ASSUMPTIONS = ["operators have at least two children; the or operator executes at least one child"]


def trees(g, ops, depth=3):
    from pm4py.objects.process_tree.obj import ProcessTree, Operator

    def rec(d):
        if d == 0 or d < depth and g.flag(0.35):
            return ProcessTree(label=None if g.flag(0.2) else g.pick("abcdef"))
        t = ProcessTree(operator=Operator(g.pick(ops)))
        n = g.weighted([(2, 2), (3, 1)])
        for _ in range(n):
            c = rec(d - 1)
            c.parent = t
            t.children.append(c)
        return t
    return rec(depth)


def shape(t):
    return (t.operator.value if t.operator else None, t.label, tuple(shape(c) for c in t.children))


def random_playout(sim):
    from pm4py.algo.simulation.playout.process_tree import algorithm as po
    from pm4py.algo.simulation.playout.process_tree.variants import basic_playout, topbottom
    g = sim.gen
    t = trees(g, g.pick([["->", "X", "+", "*", "O", "<>"], ["->", "X", "+", "*"], ["+", "*", "->"], ["O", "*", "->"],
                         ["<>", "*", "->", "+"]]), g.int(1, 3))
    basic = g.flag(0.6)
    mod = basic_playout if basic else topbottom
    n = g.int(0, 8)
    params = {mod.Parameters.NO_TRACES: n}
    key = "concept:name"
    if not basic and g.flag(0.3):
        key = params[mod.Parameters.ACTIVITY_KEY] = "act"
    before = shape(t)
    lang = ptlang.of(t)
    sim.skew_draws(g.pick(["plain", "plain", "ends"]))
    log = po.apply(t, parameters=params, variant=po.Variants.BASIC_PLAYOUT if basic else po.Variants.TOPBOTTOM)
    sim.check(shape(t) == before, "input-changed", f"{before} became {shape(t)}")
    sim.check(len(log) == n, "number-of-traces", f"{len(log)} instead of {n}")
    last = None
    for i, tr in enumerate(log):
        w = [e[key] for e in tr]
        if len(w) <= 60:
            sim.check(ptlang.accepts(lang, w), "not-in-language", lambda: f"{w} is not a word of {t}")
        for e in tr:
            if "time:timestamp" in e:
                sim.check(last is None or e["time:timestamp"] > last, "timestamp", f"{last} then {e['time:timestamp']}")
                last = e["time:timestamp"]
    if basic:
        ids = [tr.attributes["concept:name"] for tr in log]
        sim.check(len(set(ids)) == len(ids), "case-identifier", f"{ids}")
    sim.injected("draws", sum(len(tr) for tr in log))
    sim.nontrivial = n >= 2 and sum(len(tr) for tr in log) >= 3
    sim.cover(before, [tuple(e[key] for e in tr) for tr in log])


def extensive(sim):
    from pm4py.algo.simulation.playout.process_tree import algorithm as po
    from pm4py.algo.simulation.playout.process_tree.variants import extensive as mod
    g = sim.gen
    P = mod.Parameters
    t = trees(g, g.pick([["->", "X", "+", "*"], ["X", "->", "*"]]), g.int(1, 3))
    lang = ptlang.of(t)
    lo, hi = g.int(0, 3), g.int(1, 6)
    words = None
    while words is None:
        words = ptlang.words(lang, hi, 800)
        hi -= words is None
    want = {w for w in words if len(w) >= lo}
    params = {P.MIN_TRACE_LENGTH: lo, P.MAX_TRACE_LENGTH: hi, P.MAX_LOOP_OCC: 50}
    limited = g.flag(0.2)
    if limited:
        params[P.MAX_LOOP_OCC] = g.int(0, 2)
    key = "concept:name"
    if g.flag(0.3):
        key = params[P.ACTIVITY_KEY] = "act"
    strings = g.flag(0.3)
    if strings:
        params[P.RETURN_SET_STRINGS] = True
    before = shape(t)
    out = po.apply(t, parameters=params, variant=po.Variants.EXTENSIVE)
    sim.check(shape(t) == before, "input-changed", f"{before} became {shape(t)}")
    got = list(out) if strings else [tuple(e[key] for e in tr) for tr in out]
    sim.check(len(set(got)) == len(got), "duplicate-word", f"{got}")
    extra = sorted(set(got) - want)
    sim.check(not extra, "not-in-language", lambda: f"{extra[:3]} not among the words of {t} with {lo} to {hi} activities")
    if not limited:
        sim.check(set(got) == want, "word-missing", lambda: f"{sorted(want - set(got))[:3]} of {t} with {lo} to {hi} activities")
    sim.nontrivial = len(got) >= 2
    sim.cover(before, sorted(got))


SCENARIOS = [("random_playout", random_playout, 3), ("extensive", extensive, 2)]
