"""C18: a log simulated from a directly-follows graph contains only its paths, with their probabilities, within the requested limits."""
import datetime
import math

from dst import seams

PROPERTY = "C18"
RUNS = {"quick": 24000, "thorough": 400000}
RULE = ("one run = one playout (most likely variants or performance simulation) of a generated complete directly-follows graph with seeded "
        "limits, draws and clock (ticks and jumps, also backwards); non-trivial when >= 2 traces were produced")
DISTINCT = "hash of the graph and of the traces"
REAL = ["pm4py.algo.simulation.playout.dfg (all variants)", "random, numpy.random"]
STUB = ["clock (simulated)"]
ASSUMPTIONS = ["every activity lies on a path from a start to an end activity"]
EPOCH = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)


def graph(g, weights=(1, 1, 2, 5, 100)):
    acts = ["a", "b", "c", "d", "é", "a b"][:g.int(1, 6)]
    arcs = {}
    for x in acts:
        for y in acts:
            if g.flag(0.3):
                arcs[(x, y)] = g.pick(list(weights))
    sa = {x: g.pick([1, 3, 50]) for x in acts if g.flag(0.4)} or {acts[0]: 2}
    ea = {x: g.pick([1, 3, 50]) for x in acts if g.flag(0.4)} or {acts[-1]: 2}

    def close(seed, step):
        seen, todo = set(seed), list(seed)
        while todo:
            for y in step(todo.pop()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen
    good = close(sa, lambda x: [b for a, b in arcs if a == x]) & close(ea, lambda x: [a for a, b in arcs if b == x])
    arcs = {k: v for k, v in arcs.items() if k[0] in good and k[1] in good}
    sa = {k: v for k, v in sa.items() if k in good}
    ea = {k: v for k, v in ea.items() if k in good}
    return arcs, sa, ea


def paths(arcs, sa, ea, occ, cap):
    """all complete traces with at most occ occurrences of an activity, with their probabilities"""
    tot = {}
    for (a, b), n in arcs.items():
        tot[a] = tot.get(a, 0) + n
    for a, n in ea.items():
        tot[a] = tot.get(a, 0) + n
    out = {}
    todo = [((a,), n / sum(sa.values())) for a, n in sa.items()]
    steps = 0
    while todo:
        w, p = todo.pop()
        steps += 1
        if steps > cap:
            return None
        if w[-1] in ea:
            out[w] = p * ea[w[-1]] / tot[w[-1]]
        for (a, b), n in arcs.items():
            if a == w[-1] and w.count(b) < occ:
                todo.append((w + (b,), p * n / tot[a]))
    return out


def covers(w):
    return {("s", w[0]), ("e", w[-1])} | {(w[i], w[i + 1]) for i in range(len(w) - 1)}


def variants(sim):
    from pm4py.algo.simulation.playout.dfg import algorithm as po
    from pm4py.algo.simulation.playout.dfg.variants import classic
    P = classic.Parameters
    g = sim.gen
    arcs, sa, ea = graph(g)
    if not sa or not ea:
        return
    occ = g.pick([2, 1, 1, 3])
    allp = paths(arcs, sa, ea, occ, 3000)
    while allp is None:
        occ -= 1
        if occ == 0:
            return
        allp = paths(arcs, sa, ea, occ, 20000 if occ == 1 else 3000)
    params = {P.MAX_NO_OCC_PER_ACTIVITY: occ}
    k, w = 3000, 1.0
    if g.flag(0.4):
        k = params[P.MAX_NO_VARIANTS] = g.int(1, 12)
    if g.flag(0.25):
        w = params[P.MIN_WEIGHTED_PROBABILITY] = g.pick([0.1, 0.5, 0.9])
    stop = g.flag(0.35)
    new = g.flag(0.2)
    only = g.flag(0.25)
    if stop:
        params[P.INTERRUPT_SIMULATION_WHEN_DFG_COMPLETE] = True
    if new:
        params[P.ADD_TRACE_IF_TAKES_NEW_ELS_TO_DFG] = True
    if only:
        params[P.RETURN_ONLY_IF_COMPLETE] = True
    limited = g.flag(0.3)
    if limited:
        params[P.MAX_EXECUTION_TIME] = g.pick([0.5, 5, 60])
    jumps = {sim.fault.int(1, 30): sim.fault.pick([3600.0, -3600.0, -1.0, 10.0]) for _ in range(sim.fault.int(0, 3))} \
        if limited else {}
    clock = seams.Clock(sim, tick=sim.fault.pick([0.0, 0.01, 1.0]), jumps=jumps)
    seams.set_clock(clock)
    ret = g.flag(0.4)
    key, ts = "concept:name", "time:timestamp"
    if ret:
        params[P.RETURN_VARIANTS] = True
    elif g.flag(0.3):
        key = params[P.ACTIVITY_KEY] = "act"
        ts = params[P.TIMESTAMP_KEY] = "ts"
    before = repr((arcs, sa, ea))
    out = po.apply(arcs, sa, ea, parameters=params, variant=po.Variants.CLASSIC)
    seams.set_clock(None)
    sim.check(repr((arcs, sa, ea)) == before, "input-changed", "the directly-follows graph")
    if out is None:
        sim.check(only, "no-result", "nothing returned")
        sim.check(len(allp) > k or limited or w < 1.0 or abs(sum(allp.values()) - 1) < 1e-9, "no-result",
                  f"nothing returned although all the {len(allp)} traces fit")
        sim.nontrivial = True
        sim.cover(before, None)
        return
    if ret:
        got = list(out)
        for t in got:
            sim.check(t in allp, "not-a-path", f"{t}")
            p = allp[t] * k
            sim.check(out[t] in (math.ceil(p), math.ceil(p - 1e-9), math.ceil(p + 1e-9)), "wrong-occurrences", f"{t}: {out[t]}, expected {p}")
    else:
        got = [tuple(e[key] for e in tr) for tr in out]
        n = 0
        for i, tr in enumerate(out):
            t = got[i]
            sim.check(t in allp, "not-a-path", f"{t}")
            sim.check(abs(tr.attributes["probability"] - allp[t]) <= 1e-9, "wrong-probability", f"{t}: {tr.attributes['probability']}, expected {allp[t]}")
            sim.check(tr.attributes["concept:name"] == str(i), "case-identifier", f"{i}: {tr.attributes}")
            for e in tr:
                sim.check(e[ts] == EPOCH + datetime.timedelta(seconds=10000000 + n), "timestamp", f"event {n}: {e[ts]}")
                n += 1
    sim.check(len(set(got)) == len(got), "duplicate-trace", f"{got}")
    for x, y in zip(got, got[1:]):
        sim.check(allp[x] >= allp[y] - 1e-12, "wrong-order", f"{x} ({allp[x]}) before {y} ({allp[y]})")
    sim.check(len(got) <= k, "too-many", f"{len(got)} variants, at most {k}")
    full = set(got) == set(allp)
    mass = sum(allp[t] for t in got)
    seen = set().union(set(), *(covers(t) for t in got))
    everything = {("s", x) for x in sa} | {("e", x) for x in ea} | set(arcs)
    done = stop and seen >= everything
    if only and not new and not done:
        sim.check(full, "incomplete", f"{sorted(set(allp) - set(got))[:3]} missing from a complete result")
    if new:
        sim.check(len(got) == k or done or limited or w < 1.0 or seen == set().union(*(covers(t) for t in allp)), "behaviour-missing",
                  f"{sorted(map(repr, set().union(*(covers(t) for t in allp)) - seen))}")
    elif not limited:
        sim.check(full or len(got) == k or done or mass > w - 1e-9, "trace-missing",
                  f"{sorted(set(allp) - set(got))[:3]} missing: {len(got)} of {len(allp)} traces, probability {mass}")
    # the probability of a single trace
    from pm4py.objects.log.obj import Trace, Event
    for t in list(allp)[:3]:
        p = classic.get_trace_probability(Trace([Event({"concept:name": a}) for a in t]), arcs, sa, ea)
        sim.check(abs(p - allp[t]) <= 1e-9, "wrong-probability", f"get_trace_probability of {t}: {p}, expected {allp[t]}")
    bad = ("zz",) + list(allp)[0]
    sim.check(classic.get_trace_probability(Trace([Event({"concept:name": a}) for a in bad]), arcs, sa, ea) == 0.0, "wrong-probability",
              f"{bad} is no path")
    sim.nontrivial = len(got) >= 2
    sim.cover(before, got)


def performance(sim):
    from pm4py.algo.simulation.playout.dfg import algorithm as po
    from pm4py.algo.simulation.playout.dfg.variants import performance as mod
    P = mod.Parameters
    g = sim.gen
    arcs, sa, ea = graph(g, weights=(1, 1, 2, 3))
    if not sa or not ea:
        return
    mean = {a: g.pick([0, 0.5, 60, 86400 * 30]) for a in arcs}
    perf = {a: ({"mean": m, "median": 77777} if g.flag(0.5) else m) for a, m in mean.items()}
    if g.flag(0.2) and arcs:
        a = g.pick(sorted(arcs))
        if any(x[0] == a[0] and x != a for x in arcs) and a[0] in ea:
            arcs = dict(arcs)
            arcs[a] = 0
    n, rate = g.int(0, 8), g.pick([1, 3600, 0, 0.25])
    params = {P.NUM_TRACES: n, P.PERFORMANCE_DFG: perf, P.CASE_ARRIVAL_RATE: rate}
    key, ts, cid = "concept:name", "time:timestamp", "concept:name"
    if g.flag(0.3):
        key, ts, cid = "act", "ts", "cid"
        params.update({P.ACTIVITY_KEY: key, P.TIMESTAMP_KEY: ts, P.CASE_ID_KEY: cid})
    before = repr((arcs, sa, ea, perf))
    log = po.apply(arcs, sa, ea, parameters=params, variant=po.Variants.PERFORMANCE)
    sim.check(repr((arcs, sa, ea, perf)) == before, "input-changed", "the graphs")
    sim.check(len(log) == n, "number-of-traces", f"{len(log)} instead of {n}")
    for i, tr in enumerate(log):
        t = [e[key] for e in tr]
        sim.check(tr.attributes[cid] == str(i), "case-identifier", f"{i}: {tr.attributes}")
        sim.check(t and t[0] in sa and t[-1] in ea, "not-a-path", f"{t}")
        start = EPOCH + datetime.timedelta(seconds=10000000 + (i + 1) * rate)
        sim.check(abs((tr[0][ts] - start).total_seconds()) < 1e-4, "timestamp", f"case {i} starts at {tr[0][ts]} instead of {start}")
        for x, y in zip(tr, tr[1:]):
            a = (x[key], y[key])
            sim.check(arcs.get(a, 0) > 0, "not-a-path", lambda: f"{a} in {t}")
            d = (y[ts] - x[ts]).total_seconds()
            sim.check(d == 0 if mean[a] == 0 else d >= 0, "timestamp", lambda: f"{a}: {d} seconds, mean {mean[a]}")
    sim.injected("random-draw", sum(len(tr) for tr in log))
    sim.nontrivial = n >= 2
    sim.cover(before, [tuple(str(e[key]) for e in tr) for tr in log])


SCENARIOS = [("variants", variants, 3), ("performance", performance, 1)]
