"""C23: alignments explain the trace by a run of the model, at the least cost, whatever the order in which states are visited."""
from dst import alref, gen, netref
from checks import c14

PROPERTY = "C23"
RUNS = {"quick": 12000, "thorough": 300000}
RULE = ("one run = a log of <= 5 noisy traces aligned with a generated model (sound block-structured nets with silent, duplicate "
        "and parallel transitions; arbitrary bounded easy-sound nets with weights; process trees; directly-follows graphs; "
        "another log), by one variant, under a seeded order of the sets of places and transitions; non-trivial when some trace "
        "has >= 2 events")
DISTINCT = "hash of the model, the traces, the variant and the alignments"
REAL = ["pm4py.algo.conformance.alignments (petri_net, process_tree, dfg, edit_distance)", "pm4py.util.lp with scipy",
        "pm4py.objects.petri_net.utils.align_utils, synchronous_product, incidence_matrix"]
STUB = ["identity hashes of places, transitions and arcs (hence the order of sets): seeded per run"]
ASSUMPTIONS = ["default costs, or positive integer costs in a sixth of the runs of the Petri net variants",
               "directly-follows graphs and edit distance: optimality is not claimed"]
NV = ["VERSION_STATE_EQUATION_A_STAR", "VERSION_TWEAKED_STATE_EQUATION_A_STAR", "VERSION_DIJKSTRA_NO_HEURISTICS",
      "VERSION_DIJKSTRA_LESS_MEMORY", "VERSION_DISCOUNTED_A_STAR"]


def a_net(g, dup=0.5, free=0.4):
    """(net, im, fm, ref): the final marking is reachable from every reachable marking or at least from the initial one"""
    from pm4py.objects.petri_net.obj import PetriNet, Marking
    from pm4py.objects.petri_net.utils import petri_utils as pu
    if g.flag(free):
        for _ in range(8):
            net = PetriNet("n")
            pl = [PetriNet.Place(f"p{i}") for i in range(g.int(2, 5))]
            tr = [PetriNet.Transition(f"t{i}", g.pick(["a", "b", "c", "a", "b", None])) for i in range(g.int(2, 7))]
            net.places.update(pl)
            net.transitions.update(tr)
            for t in tr:
                left = list(pl)
                for _ in range(g.weighted([(1, 6), (2, 1)])):
                    p = left.pop(g.int(0, len(left) - 1))
                    pu.add_arc_from_to(p, t, net, weight=g.weighted([(1, 8), (2, 1)]))
                left = list(pl)
                for _ in range(g.weighted([(1, 6), (2, 2), (0, 1)])):
                    p = left.pop(g.int(0, len(left) - 1))
                    pu.add_arc_from_to(t, p, net, weight=g.weighted([(1, 10), (2, 1)]))
            im = Marking({p: g.weighted([(1, 6), (2, 1)]) for p in pl[:g.weighted([(1, 4), (2, 1)])]})
            ref = netref.Net(net)
            succ = ref.space(im, 60, 6)
            if succ is None or len(succ) < 2:
                continue
            # a reachable marking is the final one; markings are visited in a fixed order
            ms = sorted(succ, key=lambda m: sorted((p.name, n) for p, n in m))
            fm = Marking(dict(g.pick(ms)))
            return net, im, fm, ref
    net, im, fm, _, _ = c14.build(g)
    if g.flag(dup):
        for t in sorted(net.transitions, key=lambda t: t.name):
            if t.label is not None:
                t.label = g.pick("abcd")
    return net, im, fm, netref.Net(net)


def a_trace(g, acts, ref=None, im=None, maxlen=6):
    """a walk of the model with noise, or noise alone"""
    w = []
    if ref is not None and g.flag(0.75):
        m = ref.key(im)
        for _ in range(g.int(1, 12)):
            en = ref.enabled(m)
            if not en:
                break
            t = g.pick(en)
            m = ref.fire(m, t)
            if ref.label[t] is not None:
                w.append(ref.label[t])
    else:
        if g.flag(0.05):
            # long traces that hardly fit: the costs leave the usual range
            maxlen = 14
            w = [g.pick(["zz", "zz", g.pick(acts)]) for _ in range(g.int(11, maxlen))]
        else:
            w = [g.pick(acts) for _ in range(g.int(0, maxlen))]
    for _ in range(g.weighted([(0, 3), (1, 3), (2, 2)])):
        k = g.pick(["ins", "del", "swap", "alien"])
        i = g.int(0, len(w))
        if k in ("ins", "alien"):
            w.insert(i, g.pick(acts) if k == "ins" else "zz")
        elif w and k == "del":
            w.pop(min(i, len(w) - 1))
        elif len(w) > 1:
            i = min(i, len(w) - 2)
            w[i], w[i + 1] = w[i + 1], w[i]
    return tuple(w[:maxlen])


def log_of(traces, key="concept:name", how="log"):
    import datetime
    from pm4py.objects.log.obj import EventLog, Trace, Event
    t0 = datetime.datetime(2024, 1, 1, tzinfo=datetime.timezone.utc)
    log = EventLog()
    for i, w in enumerate(traces):
        tr = Trace(attributes={"concept:name": f"case{i:03d}"})
        for j, a in enumerate(w):
            tr.append(Event({key: a, "time:timestamp": t0 + datetime.timedelta(seconds=60 * j)}))
        log.append(tr)
    if how == "df":
        import pm4py
        return pm4py.convert_to_dataframe(log)
    return log


def net_case(sim):
    g = sim.gen
    net, im, fm, ref = a_net(g)
    acts = sorted({ref.label[t] for t in ref.trans if ref.label[t] is not None} | {"a", "b"})
    traces = [a_trace(g, acts, ref, im) for _ in range(g.int(1, 5))]
    return net, im, fm, ref, traces


def dev(cost):
    """number of deviations of a cost that float arithmetic may have touched"""
    return int((cost + 0.5) // 10000)


def check_net_alignment(sim, al, ref, im, fm, trace, opt, bwc, what, exact=None, wide=False, fitness=True):
    sim.check(al is not None, "no-alignment", lambda: f"{what} trace {trace}")
    moves = al["alignment"]
    if wide:
        names = [n for n, _ in moves]
        moves = [l for _, l in moves]
    s = alref.split(moves)
    sim.check(s is not None, "malformed-move", lambda: f"{what} {moves}")
    tr, mod, d, taus = s
    sim.check(tr == tuple(trace), "trace-not-explained", lambda: f"{what} {trace}: {moves}")
    sim.check(alref.run_labels(ref, im, fm, mod), "no-run-of-the-model", lambda: f"{what} {trace}: {moves}")
    if wide:
        m = ref.key(im)
        by = {t.name: t for t in ref.trans}
        for _, nm in names:
            if nm != alref.SKIP:
                t = by.get(nm)
                sim.check(t is not None and t in ref.enabled(m), "no-run-of-the-model", lambda: f"{what} {trace}: {al['alignment']}")
                m = ref.fire(m, t)
        sim.check(m == ref.key(fm), "no-run-of-the-model", lambda: f"{what} {trace}: {al['alignment']}")
    if opt is None:
        return
    sim.check(d == dev(opt), "not-optimal", lambda: f"{what} {trace}: {d} deviations, best {opt}: {moves}")
    sim.check(dev(al["cost"]) == d, "wrong-cost", lambda: f"{what} {trace}: {al['cost']} for {moves}")
    if exact:
        sim.check(abs(al["cost"] - opt) < 0.5, "wrong-cost", lambda: f"{what} {trace}: {al['cost']}, best {opt}")
    if fitness:
        den = len(trace) + dev(bwc)
        want = 1 - d / den if den else 1.0
        sim.check(abs(al["fitness"] - want) < 1e-9, "wrong-fitness", lambda: f"{what} {trace}: {al['fitness']} instead of {want}: {moves}")


def petri(sim):
    from pm4py.algo.conformance.alignments.petri_net import algorithm as A
    g = sim.gen
    net, im, fm, ref, traces = net_case(sim)
    vname = g.weighted([(v, 1 if v.endswith("DISCOUNTED_A_STAR") else 3) for v in NV])
    variant = A.Variants[vname]
    par = {}
    key = "concept:name"
    if g.flag(0.2):
        key = "act"
        par[A.Parameters.ACTIVITY_KEY if g.flag(0.5) else "pm4py:param:activity_key"] = key
    wide = g.flag(0.3)
    if wide:
        par[A.Parameters.PARAM_ALIGNMENT_RESULT_IS_SYNC_PROD_AWARE] = True
    opts = {w: alref.best(ref, im, fm, w) for w in set(traces) | {()}}
    if opts[()] == -1 or None in opts.values():
        sim.probe("model without a run")
        return
    # the discounted search exists with and without a synchronous product
    nosync = vname.endswith("DISCOUNTED_A_STAR") and g.flag(0.4)
    if nosync:
        par["synchronous_dijkstra"] = False
    before = gen.norm_net((net, im, fm))
    res = A.apply(log_of(traces, key), net, im, fm, variant=variant, parameters=dict(par))
    sim.check(len(res) == len(traces), "alignments-missing", f"{len(res)} for {len(traces)} traces")
    disc = vname.endswith("DISCOUNTED_A_STAR")
    for w, al in zip(traces, res):
        check_net_alignment(sim, al, ref, im, fm, w, None if disc else opts[w], opts[()], vname,
                            exact=vname == "VERSION_DIJKSTRA_NO_HEURISTICS", wide=wide)
        sim.ev(vname, w, al["cost"], al["alignment"])
    sim.check(gen.norm_net((net, im, fm)) == before, "model-changed", vname)
    sim.cover(vname, traces, [al["alignment"] for al in res])
    sim.nontrivial = any(len(w) > 1 for w in traces)


def costs(sim):
    """costs given by the caller"""
    from pm4py.algo.conformance.alignments.petri_net import algorithm as A
    P = A.Parameters
    g = sim.gen
    net, im, fm, ref, traces = net_case(sim)
    w = traces[0]
    vname = g.pick(NV[:4])
    wm = {t: g.int(1, 4) * 1000 if ref.label[t] is not None else g.int(0, 1) for t in ref.trans}
    wl = [g.int(1, 4) * 1000 for _ in w]
    opt = alref.best(ref, im, fm, w, wmodel=wm, wlog=wl)
    if opt in (None, -1):
        return
    par = {P.PARAM_MODEL_COST_FUNCTION: dict(wm), P.PARAM_TRACE_COST_FUNCTION: list(wl),
           P.PARAM_SYNC_COST_FUNCTION: {t: 0 for t in ref.trans}}
    al = A.apply(log_of([w])[0], net, im, fm, variant=A.Variants[vname], parameters=par)
    check_net_alignment(sim, al, ref, im, fm, w, None, 0, vname, fitness=False)
    sim.check(abs(al["cost"] - opt) < 100, "not-optimal", lambda: f"{vname} {w}: {al['cost']} instead of {opt}: {al['alignment']}")
    i, tot = 0, 0
    sim.ev(vname, w, al["cost"], al["alignment"])
    sim.cover(vname, w, wl, al["alignment"])
    sim.nontrivial = len(w) > 1


def tree_of(g):
    return gen.tree(g, 3, 0.0, ops=("->", "X", "+", "*", "->", "X"), tau=0.15, labels=list("abcde"))


def check_tree_alignment(sim, al, tree, trace, opt, bwc, what, lang=True):
    sim.check(al is not None, "no-alignment", lambda: f"{what} {trace} {tree}")
    moves = [(a, b if isinstance(b, str) else b.label) for a, b in al["alignment"]]
    s = alref.split(moves)
    sim.check(s is not None, "malformed-move", lambda: f"{what} {moves} {tree}")
    tr, mod, d, _ = s
    sim.check(tr == tuple(trace), "trace-not-explained", lambda: f"{what} {trace}: {moves} {tree}")
    from dst import ptlang
    word = tuple(x for x in mod if x is not None)
    sim.check(ptlang.accepts(ptlang.of(tree), word), "no-run-of-the-model", lambda: f"{what} {trace}: {moves} {tree}")
    sim.check(al["cost"] == d, "wrong-cost", lambda: f"{what} {trace}: {al['cost']} for {moves} {tree}")
    if opt is not None:
        sim.check(d >= opt, "wrong-cost", lambda: f"{what} {trace}: {d} deviations, but at least {opt} are needed {tree}")
        # the search is not exhaustive with more than one loop (listed as a known finding)
        cls = "not-optimal-loops" if str(tree).count("*(") > 1 else "not-optimal"
        sim.check(d == opt, cls, lambda: f"{what} {trace}: {d} deviations, best {opt}: {moves} {tree}")
        if "fitness" in al and bwc is not None:
            den = len(trace) + bwc
            want = 1 - d / den if den else 1.0
            sim.check(abs(al["fitness"] - want) < 1e-9, "wrong-fitness", lambda: f"{what} {trace}: {al['fitness']}, not {want} {tree}")


def trees(sim):
    from pm4py.algo.conformance.alignments.process_tree.variants import search_graph_pt as S
    g = sim.gen
    tree = tree_of(g)
    traces = [tree_trace(g, tree) for _ in range(g.int(1, 4))]
    before = gen.norm_tree(tree, False)
    res = S.apply(log_of(traces), tree)
    sim.check(len(res) == len(traces), "alignments-missing", f"{len(res)} for {len(traces)} traces")
    bwc = alref.tree_best(tree, ())
    for w, al in zip(traces, res):
        check_tree_alignment(sim, al, tree, w, alref.tree_best(tree, w), bwc, "tree")
        sim.ev(w, al["cost"])
    sim.check(gen.norm_tree(tree, False) == before, "model-changed", str(tree))
    sim.cover(str(tree), traces, [al["cost"] for al in res])
    sim.nontrivial = any(len(w) > 1 for w in traces)


def tree_trace(g, tree):
    from dst import ptlang
    acts = sorted(ptlang.alphabet(ptlang.of(tree)) | {"a", "b"})
    e, w = {ptlang.of(tree)}, []
    for _ in range(g.int(0, 6)):
        nxt = [(a, d) for a in acts for d in [set().union(*(ptlang.derive(x, a) for x in e))] if d]
        if not nxt:
            break
        a, e = g.pick(nxt)
        w.append(a)
    for _ in range(g.weighted([(0, 3), (1, 3), (2, 2)])):
        i = g.int(0, len(w))
        if g.flag(0.5):
            w.insert(i, g.pick(acts + ["zz"]))
        elif w:
            w.pop(min(i, len(w) - 1))
    return tuple(w[:7])


def a_dfg(g):
    """every activity on a path from a start to an end activity"""
    acts = list("abcdef")[:g.int(1, 5)]
    walks = [[g.pick(acts) for _ in range(g.int(1, 5))] for _ in range(g.int(1, 4))]
    dfg, sa, ea = {}, {}, {}
    for w in walks:
        sa[w[0]] = sa.get(w[0], 0) + 1
        ea[w[-1]] = ea.get(w[-1], 0) + 1
        for p in zip(w, w[1:]):
            dfg[p] = dfg.get(p, 0) + 1
    return dfg, sa, ea


def dfgs(sim):
    from pm4py.algo.conformance.alignments.dfg import algorithm as D
    g = sim.gen
    dfg, sa, ea = a_dfg(g)
    acts = sorted({a for p in dfg for a in p} | set(sa) | {"a", "b"})
    traces = [a_trace(g, acts) for _ in range(g.int(1, 4))]
    res = D.apply(log_of(traces), dict(dfg), dict(sa), dict(ea))
    sim.check(len(res) == len(traces), "alignments-missing", f"{len(res)} for {len(traces)} traces")
    bwc = alref.dfg_best(dfg, sa, ea, ())
    for w, al in zip(traces, res):
        s = alref.split(al["alignment"])
        sim.check(s is not None, "malformed-move", f"dfg {al['alignment']}")
        tr, mod, d, _ = s
        sim.check(tr == w, "trace-not-explained", f"dfg {w}: {al['alignment']}")
        ok = mod and mod[0] in sa and mod[-1] in ea and all(p in dfg for p in zip(mod, mod[1:]))
        sim.check(ok, "no-run-of-the-model", f"dfg {dfg} {sa} {ea} {w}: {al['alignment']}")
        sim.check(dev(al["cost"]) == d, "wrong-cost", f"dfg {w}: {al['cost']} {al['alignment']}")
        want = 1 - d / (len(w) + bwc)
        sim.check(abs(al["fitness"] - want) < 1e-9, "wrong-fitness", f"dfg {w}: {al['fitness']} not {want}")
        sim.ev(w, al["cost"])
    sim.cover(sorted(dfg), sorted(sa), sorted(ea), traces)
    sim.nontrivial = any(len(w) > 1 for w in traces)


def edits(sim):
    from pm4py.algo.conformance.alignments.edit_distance import algorithm as E
    g = sim.gen
    acts = list("abcde")[:g.int(1, 5)]
    model = [tuple(g.pick(acts) for _ in range(g.int(0, 5))) for _ in range(g.int(1, 4))]
    traces = [a_trace(g, acts) for _ in range(g.int(1, 4))]
    res = E.apply(log_of(traces), log_of(model))
    sim.check(len(res) == len(traces), "alignments-missing", f"{len(res)} for {len(traces)} traces")
    for w, al in zip(traces, res):
        s = alref.split(al["alignment"])
        sim.check(s is not None, "malformed-move", f"edit {al['alignment']}")
        tr, mod, d, _ = s
        sim.check(tr == w, "trace-not-explained", f"edit {w}: {al['alignment']}")
        sim.check(tuple(mod) in model, "no-run-of-the-model", f"edit {w} {model}: {al['alignment']}")
        sim.check(dev(al["cost"]) == d, "wrong-cost", f"edit {w}: {al['cost']} {al['alignment']}")
        sim.check((al["fitness"] == 1) == (w in model), "wrong-fitness", f"edit {w} {model}: {al}")
        sim.check(al["fitness"] <= 1, "wrong-fitness", f"edit {w} {model}: {al}")
        sim.ev(w, al["cost"])
    sim.cover(model, traces)
    sim.nontrivial = any(len(w) > 1 for w in traces)


SCENARIOS = [("petri", petri, 8), ("costs", costs, 2), ("trees", trees, 4), ("dfg", dfgs, 2), ("edit", edits, 1)]
