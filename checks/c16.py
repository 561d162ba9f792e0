"""C16: the logs simulated from a Petri net contain only runs of the net, as many and as long as requested."""
import datetime

from dst import gen, netref
from checks import c14

PROPERTY = "C16"
RUNS = {"quick": 8000, "thorough": 300000}
RULE = ("one run = one playout (basic, stochastic or extensive) of a generated net (sound block-structured nets, or arbitrary bounded "
        "nets with weights, deadlocks, duplicate labels, silent loops, inhibitor and reset arcs) under seeded draws; non-trivial "
        "when >= 2 traces or >= 3 events were produced")
DISTINCT = "hash of the net and of the traces"
REAL = ["pm4py.algo.simulation.playout.petri_net (all variants)", "pm4py.objects.petri_net.semantics",
        "pm4py.objects.petri_net.inhibitor_reset.semantics", "pm4py.objects.stochastic_petri.utils", "random, numpy.random"]
STUB = ["draws: seeded per run; in half of the runs skewed towards the first and last alternatives"]
ASSUMPTIONS = ["bounded nets; no trap of silent transitions (its playout has no end by definition)",
               "no transition has two arcs from the same place"]


def nets(g, special):
    from pm4py.objects.petri_net.obj import PetriNet, Marking, ResetInhibitorNet
    from pm4py.objects.petri_net.utils import petri_utils as pu
    if not special and g.flag(0.4):
        net, im, fm, _, _ = c14.build(g)
        if g.flag(0.5):
            for t in sorted(net.transitions, key=lambda t: t.name):
                if t.label is not None:
                    t.label = g.pick("abcd")
        return net, im, fm
    net = ResetInhibitorNet("n") if special else PetriNet("n")
    pl = [PetriNet.Place(f"p{i}") for i in range(g.int(2, 5))]
    tr = [PetriNet.Transition(f"t{i}", g.pick(["a", "b", "c", "a", None])) for i in range(g.int(1, 6))]
    net.places.update(pl)
    net.transitions.update(tr)
    for t in tr:
        left = list(pl)
        for _ in range(g.weighted([(1, 5), (2, 2)])):
            p = left.pop(g.int(0, len(left) - 1))
            ty = g.weighted([(None, 3), ("inhibitor", 1), ("reset", 1)]) if special else None
            pu.add_arc_from_to(p, t, net, weight=1 if ty else g.weighted([(1, 6), (2, 1)]), type=ty)
        for p in g.subset(pl, 0.35):
            pu.add_arc_from_to(t, p, net, weight=g.weighted([(1, 8), (2, 1)]))
    im = Marking({p: g.int(1, 2) for p in pl[:g.int(1, 2)]})
    fm = Marking({p: 1 for p in g.subset(pl, 0.3)})
    return net, im, fm


def setup(sim):
    g = sim.gen
    special = g.flag(0.2)
    for _ in range(12):
        net, im, fm = nets(g, special)
        ref = netref.Net(net, special)
        succ = ref.space(im)
        if succ is not None:
            break
    else:
        special = False
        net, im, fm, _, _ = c14.build(g)
        ref = netref.Net(net)
        succ = ref.space(im, 5000)
    return net, im, fm, ref, succ, special


def semantics(special):
    if not special:
        return None
    from pm4py.objects.petri_net.inhibitor_reset.semantics import InhibitorResetSemantics
    return InhibitorResetSemantics()


def follow(sim, elements, net, im, ref, P):
    """replays the visited markings and transitions; returns the last marking and the labels"""
    m = ref.key(im)
    labels = []
    expect = "marking"
    for x in elements:
        if isinstance(x, P.Transition):
            sim.check(expect == "transition", "malformed-run", f"{elements}")
            sim.check(x in ref.enabled(m), "not-enabled", f"{x.name} fired at {dict(m)}: {elements}")
            m = ref.fire(m, x)
            if x.label is not None:
                labels.append(x.label)
            expect = "marking"
        else:
            sim.check(expect == "marking", "malformed-run", f"{elements}")
            sim.check(ref.key(x) == m, "wrong-marking", f"visited {x}, expected {dict(m)}: {elements}")
            expect = "transition"
    return m, labels


def check_events(sim, log, keys, start, cid):
    act, ts, case = keys
    n = 0
    t0 = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=start)
    for i, tr in enumerate(log):
        sim.check(tr.attributes[case] == str(i + cid), "case-identifier", f"trace {i}: {dict(tr.attributes)}")
        for e in tr:
            sim.check(set(e) == {act, ts}, "event-attributes", f"{dict(e)}")
            sim.check(e[ts] == t0 + datetime.timedelta(seconds=n), "timestamp", f"event {n}: {e[ts]}")
            n += 1


def basic(sim):
    from pm4py.objects.petri_net.obj import PetriNet
    from pm4py.algo.simulation.playout.petri_net import algorithm as po
    from pm4py.algo.simulation.playout.petri_net.variants import basic_playout, stochastic_playout
    g = sim.gen
    net, im, fm, ref, succ, special = setup(sim)
    kf = ref.key(fm)
    stoch = g.flag(0.35)
    mod = stochastic_playout if stoch else basic_playout
    P = mod.Parameters
    with_fm = g.flag(0.8) or stoch
    leq = not stoch and with_fm and g.flag(0.2)

    def final(m):
        return with_fm and (m == kf or leq and all(dict(m).get(p, 0) >= n for p, n in kf))
    trap = ref.trapped(succ, lambda m: final(m) or not succ[m])
    if trap:
        sim.nontrivial = False
        return
    n, mx = g.int(1, 12), g.pick([1000, 1000, 0, 1, 3, 10])
    # a net without end needs a bound
    ends = {m for m in succ if not succ[m] or final(m)}
    endless = True
    if ends:
        back = set(ends)
        while True:
            more = {m for m in succ if m not in back and any(x in back for _, x in succ[m])}
            if not more:
                break
            back |= more
        endless = back != set(succ)
    if endless:
        mx = g.int(0, 15)
    only = not stoch and with_fm and g.flag(0.3)
    params = {P.NO_TRACES: n, P.MAX_TRACE_LENGTH: mx}
    if special:
        params[P.PETRI_SEMANTICS] = semantics(True)
    keys = ["concept:name", "time:timestamp", "concept:name"]
    start = cid = 0
    if g.flag(0.3):
        keys = ["act", "ts", "cid"]
        params.update({P.ACTIVITY_KEY: "act", P.TIMESTAMP_KEY: "ts", P.CASE_ID_KEY: "cid"})
    start = 10000000
    if not stoch:
        if only:
            params[P.ADD_ONLY_IF_FM_IS_REACHED] = True
        if leq:
            params[P.FM_LEQ_ACCEPTED] = True
        if g.flag(0.3):
            start, cid = g.pick([0, 1600000000, 86399]), g.int(0, 50)
            params[P.INITIAL_TIMESTAMP] = start
            params[P.INITIAL_CASE_ID] = cid
    weights = {}
    if stoch:
        from pm4py.objects.random_variables.random_variable import RandomVariable
        smap = {}
        for t in ref.trans:
            if g.flag(0.7):
                rv = RandomVariable()
                rv.read_from_string("IMMEDIATE", None)
                weights[t] = g.pick([0.0, 1.0, 0.2, 50.0])
                rv.set_weight(weights[t])
                smap[t] = rv
        params[P.STOCHASTIC_MAP] = smap
        # weights of zero may leave a loop without exit
        mx = params[P.MAX_TRACE_LENGTH] = min(mx, 15)

        def live(m):
            ts = [(t, x) for t, x in succ[m]]
            w = [(t, x) for t, x in ts if weights.get(t, 1.0) > 0]
            return w if (w or final(m)) else ts
        succ2 = {m: live(m) for m in succ}
        if ref.trapped(succ2, lambda m: final(m) or not succ[m]):
            sim.nontrivial = False
            return
    elements = g.flag(0.4)
    if elements:
        params[P.RETURN_VISITED_ELEMENTS] = True
    if only and (not any(final(m) for m in succ) or endless or mx < 4):
        # reaching the final marking may be (almost) impossible: the playout gives up only if it found nothing
        params.pop(P.ADD_ONLY_IF_FM_IS_REACHED)
        only = False
    before = gen.norm_net((net, im, fm)), sorted(map(str, params))
    sim.skew_draws()
    out = po.apply(net, im, fm if with_fm else None, parameters=params,
                   variant=po.Variants.STOCHASTIC_PLAYOUT if stoch else po.Variants.BASIC_PLAYOUT)
    now = gen.norm_net((net, im, fm)), sorted(map(str, params))
    sim.check(now == before, "input-changed", lambda: gen.first_diff(before, now))
    if only:
        sim.check(len(out) in (0, n), "number-of-traces", f"{len(out)} instead of {n}")
    else:
        sim.check(len(out) == n, "number-of-traces", f"{len(out)} instead of {n}")
    if elements:
        for el in out:
            m, labels = follow(sim, el, net, im, ref, PetriNet)
            judge(sim, m, labels, mx, ref, final, only)
            if weights:
                zero_weights(sim, el, weights, ref, PetriNet, final)
    else:
        check_events(sim, out, keys, start, cid)
        for tr in out:
            labels = [e[keys[0]] for e in tr]
            ms = ref.after(labels, im, succ)
            sim.check(ms, "not-a-run", f"{labels} is no run of the net")
            if only:
                sim.check(any(final(m) for m in ms), "final-marking-not-reached", f"{labels}")
            else:
                sim.check(len(labels) == mx or any(final(m) or not succ[m] for m in ms), "stopped-early", f"{labels}")
            sim.check(len(labels) <= mx, "too-long", f"{len(labels)} events, at most {mx}")
    sim.injected("draws", sum(len(x) for x in out))
    sim.nontrivial = len(out) >= 2 or sum(len(x) for x in out) >= 3
    sim.cover(before[0][1], [tuple(str(x) for x in el) if elements else tuple(e[keys[0]] for e in el) for el in out])


def judge(sim, m, labels, mx, ref, final, only):
    sim.check(len(labels) <= mx, "too-long", f"{len(labels)} visible transitions, at most {mx}")
    if only:
        sim.check(final(m), "final-marking-not-reached", f"ends at {dict(m)}")
    else:
        sim.check(len(labels) == mx or final(m) or not ref.enabled(m), "stopped-early", f"ends at {dict(m)} after {labels}")


def zero_weights(sim, el, weights, ref, P, final):
    m = None
    for x in el:
        if isinstance(x, P.Transition):
            if weights.get(x, 1.0) == 0:
                others = [t for t in ref.enabled(m) if weights.get(t, 1.0) > 0]
                sim.check(not others and not final(m), "weight-ignored", f"{x.name} has weight 0 but fired at {dict(m)}")
        else:
            m = ref.key(x)


def extensive(sim):
    from pm4py.objects.petri_net.obj import PetriNet
    from pm4py.algo.simulation.playout.petri_net import algorithm as po
    from pm4py.algo.simulation.playout.petri_net.variants import extensive as mod
    g = sim.gen
    P = mod.Parameters
    net, im, fm, ref, succ, special = setup(sim)
    kf = ref.key(fm)
    with_fm = g.flag(0.8)
    mx = g.int(0, 5)
    want = None
    while want is None:
        want = ref.words(im, succ, (lambda m: m == kf) if with_fm else (lambda m: not succ[m]), mx, 400)
        mx -= want is None
    params = {P.MAX_TRACE_LENGTH: mx}
    if special:
        params[P.PETRI_SEMANTICS] = semantics(True)
    keys = ["concept:name", "time:timestamp", "concept:name"]
    if g.flag(0.3):
        keys = ["act", "ts", "cid"]
        params.update({P.ACTIVITY_KEY: "act", P.TIMESTAMP_KEY: "ts", P.CASE_ID_KEY: "cid"})
    elements = g.flag(0.4)
    if elements:
        params[P.RETURN_ELEMENTS] = True
    before = gen.norm_net((net, im, fm))
    out = po.apply(net, im, fm if with_fm else None, parameters=params, variant=po.Variants.EXTENSIVE)
    sim.check(gen.norm_net((net, im, fm)) == before, "input-changed", "the net or its markings")
    got = []
    if elements:
        for el in out:
            m, labels = follow(sim, el, net, im, ref, PetriNet)
            sim.check(m == kf if with_fm else not succ[m], "final-marking-not-reached", f"ends at {dict(m)}")
            got.append(tuple(labels))
    else:
        check_events(sim, out, keys, 10000001, 0)
        got = [tuple(e[keys[0]] for e in tr) for tr in out]
    sim.check(set(got) <= want, "not-a-run", f"{sorted(set(got) - want)[:3]} are no complete runs of at most {mx} activities")
    sim.check(set(got) == want, "run-missing", f"missing: {sorted(want - set(got))[:3]}")
    if with_fm:
        sim.check(len(set(got)) == len(got), "duplicate-run", f"{len(got)} traces, {len(set(got))} different")
    sim.nontrivial = len(got) >= 2
    sim.cover(before[1], sorted(got))


SCENARIOS = [("basic", basic, 3), ("extensive", extensive, 2)]
