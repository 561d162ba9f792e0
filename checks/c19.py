"""C19: generated process trees respect the requested parameters, whatever the draws."""
PROPERTY = "C19"
RUNS = {"quick": 16000, "thorough": 400000}
RULE = ("one run = one call of a process tree generator with seeded parameters (given by name or by enum element) under an adversary that may "
        "skew the draws; non-trivial when a tree with >= 3 leaves was generated")
DISTINCT = "hash of the parameters and of the trees"
REAL = ["pm4py.algo.simulation.tree_generator (both variants)", "random, numpy.random, scipy triangular distribution"]
STUB = []
ASSUMPTIONS = ["min <= mode <= max, all at least one, and at least one operator with a positive probability"]
NAMES = {"sequence": "->", "choice": "X", "parallel": "+", "loop": "*", "or": "O"}


def shape(sim, tree, top=True):
    """leaves and operators of the tree; parents and children agree"""
    leaves, ops, depth, seen = [], [], 0, set()
    todo = [(tree, 0)]
    while todo:
        n, d = todo.pop()
        sim.check(id(n) not in seen, "not-a-tree", "a node is reachable twice")
        seen.add(id(n))
        depth = max(depth, d)
        if n.operator is None:
            sim.check(not n.children, "not-a-tree", "a leaf has children")
            leaves.append((n, d))
        else:
            sim.check(len(n.children) >= 2 or n.operator.value == "*" and len(n.children) >= 2, "not-a-tree",
                      f"operator {n.operator.value} with {len(n.children)} children")
            sim.check(n.label is None, "not-a-tree", "an operator has a label")
            ops.append(n.operator.value)
            for c in n.children:
                sim.check(c.parent is n, "not-a-tree", f"{c} has another parent")
                todo.append((c, d + 1))
    sim.check(tree.parent is None, "not-a-tree", "the root has a parent")
    return leaves, ops, depth


def ptandlog(sim):
    import pm4py
    from pm4py.algo.simulation.tree_generator.variants import ptandloggenerator as mod
    P = mod.Parameters
    g = sim.gen
    want = {}
    if g.flag(0.8):
        lo = g.int(1, 8)
        hi = lo + g.pick([0, 0, 1, 3, 10])
        want.update({"min": lo, "max": hi, "mode": g.int(lo, hi)})
    if g.flag(0.7):
        weights = {n: g.pick([0, 0, 1, 0.25, 3]) for n in NAMES}
        if not any(weights.values()):
            weights[g.pick(list(NAMES))] = 0.5
        want.update(weights)
    if g.flag(0.6):
        want["silent"] = g.pick([0, 0.2, 0.5, 1.0])
    dup = 0
    if g.flag(0.6):
        dup = want["duplicate"] = g.pick([0, 0.1, 0.5, 0.9, 1.0])
    n = 1
    if g.flag(0.2):
        n = want["no_models"] = g.pick([1, 2, 3, 0])
    style = g.pick(["name", "enum", "mixed"])
    params = {}
    for k, v in want.items():
        params[P(k) if style == "enum" or style == "mixed" and g.flag(0.5) else k] = v
    before = dict(params)
    sim.skew_draws(limit=20000)
    out = pm4py.generate_process_tree(parameters=params) if params or g.flag(0.5) else pm4py.generate_process_tree()
    sim.check(params == before, "input-changed", lambda: f"parameters {before} became {params}")
    full = {"mode": 20, "min": 10, "max": 30, "sequence": 0.25, "choice": 0.25, "parallel": 0.25, "loop": 0.25, "or": 0.0, "silent": 0.2,
            "duplicate": 0, "no_models": 1, **want}
    if n != 1:
        sim.check(isinstance(out, list) and len(out) == n, "number-of-trees", lambda: f"{out!r} instead of {n} trees")
    trees = out if n != 1 else [out]
    for tree in trees:
        leaves, ops, depth = shape(sim, tree)
        labels = [x.label for x, _ in leaves if x.label is not None]
        sim.check(full["min"] <= len(labels) <= full["max"], "number-of-activities",
                  lambda: f"{tree}: {len(labels)} visible activities, between {full['min']} and {full['max']} requested")
        for name, op in NAMES.items():
            sim.check(full[name] > 0 or op not in ops, "forbidden-operator", lambda: f"{op} in {tree} although its probability is 0")
        if full["silent"] == 0 and len(labels) > 1:
            sim.check(len(labels) == len(leaves), "silent-activity", lambda: f"{tree} although their probability is 0")
        if dup == 0:
            sim.check(len(set(labels)) == len(labels), "duplicate-label", lambda: f"{tree} although their probability is 0")
        else:
            # a duplicate never stands beside its original
            pass
        sim.nontrivial |= len(leaves) >= 3
    sim.cover(repr(sorted(want.items())), [str(t) for t in trees])


def basic(sim):
    from pm4py.algo.simulation.tree_generator import algorithm
    from pm4py.algo.simulation.tree_generator.variants import basic as mod
    P = mod.Parameters
    g = sim.gen
    lo = g.int(0, 2)
    hi = g.int(lo, 3)
    leaf = g.pick([0.25, 0.6, 0.9, 0.0]) if hi < 3 else g.pick([0.5, 0.9])
    params = {P.MIN_REC_DEPTH: lo, P.MAX_REC_DEPTH: hi, P.PROB_LEAF: leaf}
    if g.flag(0.3):
        params = {k.value: v for k, v in params.items()}
    before = dict(params)
    sim.skew_draws(limit=20000)
    tree = algorithm.apply(variant=algorithm.Variants.BASIC, parameters=params)
    sim.check(params == before, "input-changed", lambda: f"parameters {before} became {params}")
    leaves, ops, depth = shape(sim, tree)
    exits = set()
    todo = [tree]
    while todo:
        x = todo.pop()
        if x.operator is not None and x.operator.value == "*":
            sim.check(len(x.children) == 3, "loop", lambda: f"{x}")
            exits.add(id(x.children[-1]))
        todo += x.children
    if leaf == 0.0 and tree.operator is not None:
        lo2 = hi + 1
    else:
        lo2 = lo
    for x, d in leaves:
        if id(x) in exits:
            sim.check(x.label is None, "loop", lambda: f"exit {x}")
            continue
        # start and end activities of the root sequence are leaves at depth one
        edge = d == 1 and (x is tree.children[0] or x is tree.children[-1])
        sim.check(edge or lo2 <= d <= hi + 1, "depth", lambda: f"leaf at depth {d}, between {lo2} and {hi + 1} requested, in {tree}")
        sim.check(x.label is not None, "silent-activity", lambda: f"{tree}")
    sim.nontrivial = len(leaves) >= 3
    sim.cover(repr(before), str(len(leaves)))


SCENARIOS = [("ptandlog", ptandlog, 4), ("basic", basic, 1)]
