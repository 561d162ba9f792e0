"""C04: the directly-follows graph learned from a stream is exactly that of the events received so far."""
import collections

from dst import util

PROPERTY = "C04"
RUNS = {"quick": 2000, "thorough": 100000}
RULE = ("one run = 1-4 threads feeding the events of generated cases into one discovery object (directly or through a "
        "live stream, dictionaries of every kind) with concurrent queries and malformed events under preemption; every "
        "answer compared with a reference on what was received; non-trivial when >= 2 cases and >= 4 events")
DISTINCT = "hash of the thread switches and of every answer"
REAL = ["pm4py.streaming.algo.discovery.dfg", "pm4py.streaming.algo.interface", "pm4py.streaming.util.dictio",
        "pm4py.streaming.stream.live_event_stream (part of the runs)", "concurrent.futures.ThreadPoolExecutor"]
STUB = ["lock primitive, OS thread scheduling, clock (simulated)"]
ASSUMPTIONS = ["the events of one case come from one producer, hence have an order"]
PREF = (util.REPO + "/pm4py/streaming",)
NAMES = ["A", "B", "C", "it's", 'say "x"', "('A', 'B')", "", " D\n", "e\u0301", "a\\b", "{A}"]


def reference(cases, upto):
    dfg, act, start, end = (collections.Counter() for _ in range(4))
    for c, tr in cases.items():
        t = tr[:upto[c]]
        for a, b in zip(t, t[1:]):
            dfg[(a, b)] += 1
        for a in t:
            act[a] += 1
        if t:
            start[t[0]] += 1
            end[t[-1]] += 1
    return tuple(map(dict, (dfg, act, start, end)))


def scenario(sim, via):
    from pm4py.streaming.algo.discovery.dfg import algorithm as alg
    from pm4py.streaming.algo.discovery.dfg.variants import frequency
    from pm4py.streaming.util.dictio import generator
    g = sim.gen
    names = g.sample(NAMES, g.int(2, 5)) if g.flag(0.6) else NAMES[:g.int(1, 4)]
    ids = [g.pick([f"c{k}", k, f"it's {k}", k + 0.5]) for k in range(g.int(2, 5))]
    cases = {c: [g.pick(names) for _ in range(g.int(1, 7))] for c in ids}
    akey = g.pick(["concept:name", "act"])
    ckey = g.pick(["case:concept:name", "cid"])
    dv = g.pick([generator.Variants.THREAD_SAFE, generator.Variants.CLASSIC])
    nprod = g.int(1, 4)
    owner = {c: g.int(0, nprod - 1) for c in cases}

    def body(sc):
        par = {frequency.Parameters.ACTIVITY_KEY: akey, frequency.Parameters.CASE_ID_KEY: ckey,
               frequency.Parameters.DICT_VARIANT: dv}
        algo = alg.apply(parameters=par)
        other = alg.apply(parameters=par) if g.flag(0.5) else None
        started, finished = collections.Counter(), collections.Counter()
        done = []
        st = None
        send = algo.receive
        if via:
            from pm4py.streaming.stream.live_event_stream import LiveEventStream
            st = LiveEventStream()
            st.register(algo)
            if other is not None:
                st.register(other)
            st.start()
            send = st.append

        def prod(k):
            def f():
                q = {c: list(tr) for c, tr in cases.items() if owner[c] == k}
                while q:
                    c = g.pick(sorted(q, key=repr))
                    a = q[c].pop(0)
                    if not q[c]:
                        del q[c]
                    if sim.fault.flag(0.08):
                        send(dict(sim.fault.pick([{}, {akey: "A"}, {ckey: "c0"}])))
                        sim.injected("malformed-event")
                    started[c] += 1
                    send({ckey: c, akey: a, "x": 1})
                    if not via:
                        finished[c] += 1
            return f

        def watcher():
            for _ in range(g.int(1, 5)):
                lo = dict(finished)
                res = algo.get()
                hi = dict(started)
                sim.injected("concurrent-query")
                compare_snapshot(sim, res, cases, lo, hi)
                sc.sleep(0.0)
        util.spawn(sc, [(f"P{k}", prod(k)) for k in range(nprod)] + [("W", watcher)])()
        if st is not None:
            st.stop()
        full = {c: len(t) for c, t in cases.items()}
        exp = reference(cases, full)
        for o in (algo, other) if via else (algo,):
            if o is None:
                continue
            got = tuple(map(dict, o.get()))
            for n, a, b in zip(("dfg", "activities", "start activities", "end activities"), got, exp):
                sim.check(a == b, "wrong-result", f"{n}: {a}, expected {b} for {cases}")
            # a query changes nothing
            sim.check(tuple(map(dict, o.get())) == got, "query-changes-state", "")
        if not via and other is not None:
            got = tuple(map(dict, other.get()))
            sim.check(got == ({}, {}, {}, {}), "shared-state", f"an object that received nothing answers {got}")
        sim.nontrivial = sum(full.values()) >= 4
        sim.cover(via, sorted(exp[0].items()), nprod)
    kw = util.swarm_sched(sim, PREF)
    kw["mean_gap"] *= 2
    util.run_threads(sim, body, **kw)


def compare_snapshot(sim, res, cases, lo, hi):
    """the answer is that of some choice of prefixes lo <= p <= hi, one per case"""
    sim.check(res is not None, "query-failed", "get() returned None")
    dfg, act, start, end = map(dict, res)
    nev = sum(act.values())
    nst, nend, nd = sum(start.values()), sum(end.values()), sum(dfg.values())
    sim.check(nst == nend and nd == nev - nst, "inconsistent-snapshot",
              f"{nev} events, {nst} started cases, {nend} last activities, {nd} directly-follows: no single state of the stream")
    tlo, thi = sum(lo.values()), sum(hi.values())
    sim.check(tlo <= nev <= thi, "inconsistent-snapshot", f"{nev} events counted, between {tlo} and {thi} received")
    # exact search over the prefixes (few, since only in-flight events differ)
    free = [c for c in cases if hi.get(c, 0) > lo.get(c, 0)]
    tot = 1
    for c in free:
        tot *= hi[c] - lo.get(c, 0) + 1
    if tot > 400:
        return
    import itertools
    rng = [range(lo.get(c, 0), hi.get(c, 0) + 1) for c in cases]
    for comb in itertools.product(*rng):
        if reference(cases, dict(zip(cases, comb))) == (dfg, act, start, end):
            return
    sim.check(False, "inconsistent-snapshot", f"answer {res} matches no prefix of the events received: {cases}")


def direct(sim):
    scenario(sim, False)


def stream(sim):
    scenario(sim, True)


SCENARIOS = [("direct", direct, 1), ("stream", stream, 1)]
