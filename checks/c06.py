"""C06: streaming footprints and temporal-profile conformance give every case the verdict of its own events."""
import collections
import datetime

from dst import util

PROPERTY = "C06"
RUNS = {"quick": 1600, "thorough": 80000}
RULE = ("one run = generated footprints (or temporal profile), 2-4 cases fed by 1-3 threads, directly or through a live "
        "stream, under preemption, with concurrent queries, terminations and malformed events; verdicts compared with an "
        "independent reference per case; non-trivial when >= 2 cases and >= 4 events")
DISTINCT = "hash of thread switches, verdicts and query results"
REAL = ["pm4py.streaming.algo.conformance.footprints", "pm4py.streaming.algo.conformance.temporal",
        "pm4py.streaming.algo.interface", "pm4py.streaming.util.dictio (thread_safe)",
        "pm4py.streaming.stream.live_event_stream (part of the runs)"]
STUB = ["lock primitive, OS thread scheduling, clock (simulated)"]
ASSUMPTIONS = ["the events of one case arrive in order from one producer"]
PREF = (util.REPO + "/pm4py/streaming/algo", util.REPO + "/pm4py/streaming/util")
ACTS = ["A", "B", "C", "D"]
EPS = 1e-6


def feed(sim, sc, algo, cases, mk, term=None, watcher=None):
    """cases: {case: [payload]}; returns after everything was processed"""
    g = sim.gen
    via = g.flag(0.4)
    started, finished = collections.Counter(), collections.Counter()
    st = None
    send = algo.receive
    if via:
        from pm4py.streaming.stream.live_event_stream import LiveEventStream
        st = LiveEventStream()
        st.register(algo)
        st.start()
        send = st.append
    n = g.int(1, 3)
    owner = {c: g.int(0, n - 1) for c in cases}
    seqs = [[] for _ in range(n)]
    for k in range(n):
        q = {c: list(tr) for c, tr in cases.items() if owner[c] == k and tr}
        while q:
            c = g.pick(sorted(q))
            x = q[c].pop(0)
            seqs[k].append((c, x, not q[c]))
            if not q[c]:
                del q[c]

    def feeder(k):
        def f():
            for c, x, last in seqs[k]:
                if sim.fault.flag(0.1):
                    send(dict(sim.fault.pick([{}, {"case:concept:name": "c0"}, {"concept:name": "A"}])))
                    sim.injected("malformed-event")
                started[c] += 1
                send(mk(c, x))
                if not via:
                    finished[c] += 1
                    if last and term is not None:
                        term(c)
        return f
    cl = [(f"F{k}", feeder(k)) for k in range(n)]
    if watcher:
        cl.append(("W", lambda: watcher(started, finished)))
    util.spawn(sc, cl)()
    if st is not None:
        st.stop()
    return via


def footprints(sim):
    from pm4py.streaming.algo.conformance.footprints import algorithm as fpa
    g = sim.gen
    acts = ACTS[:g.int(2, 4)]
    pairs = [(a, b) for a in acts for b in acts]
    fp = {"start_activities": set(g.subset(acts, 0.5)) or {acts[0]}, "end_activities": set(g.subset(acts, 0.5)) or {acts[-1]},
          "activities": set(acts), "sequence": set(g.subset(pairs, 0.5)), "parallel": set(g.subset(pairs, 0.2)),
          "min_trace_length": 1}
    allp = fp["sequence"] | fp["parallel"]
    cases = {}
    for c in range(g.int(2, 4)):
        tr = []
        for _ in range(g.int(1, 6)):
            if not tr and g.flag(0.75):
                tr.append(g.pick(sorted(fp["start_activities"])))
            elif tr and g.flag(0.8) and [b for b in acts if (tr[-1], b) in allp]:
                tr.append(g.pick([b for b in acts if (tr[-1], b) in allp]))
            else:
                tr.append(g.pick(acts + ["Z"]))
        cases[f"c{c}"] = tr

    def ref(tr):
        """number of deviations after each event"""
        out = []
        prev = None
        d = 0
        for a in tr:
            if a not in acts:
                d += 1
            else:
                if prev is None:
                    d += a not in fp["start_activities"]
                else:
                    d += (prev, a) not in allp
                prev = a
            out.append(d)
        fin = d + (0 if prev is None else prev not in fp["end_activities"])
        return out, fin

    def body(sc):
        algo = fpa.apply(fp)
        results = {}
        term = set(g.subset(sorted(cases), 0.5))

        def terminate(c):
            if c in term:
                results[c] = algo.terminate(c)
                sim.injected("terminate-mid-stream")

        def watcher(started, finished):
            for _ in range(g.int(1, 5)):
                c = g.pick(sorted(cases))
                lo = finished[c]
                if g.flag(0.6):
                    got = algo.get_status(c)
                    sim.injected("concurrent-query")
                    if got is None:
                        continue
                    poss = [True] + [d == 0 for d in ref(cases[c])[0]]
                    sim.check(got in poss[lo:started[c] + 1], "status-not-a-prefix",
                              f"{c} {cases[c]}: {got}, possible {poss[lo:started[c] + 1]}")
                else:
                    los = dict(finished)
                    df = algo.get()
                    sim.injected("concurrent-query")
                    sim.check(df is not None, "query-failed", "get() returned None")
                    for row in df.to_dict("records"):
                        cc = row["case"]
                        poss = [True] + [d == 0 for d in ref(cases[cc])[0]]
                        sim.check(row["is_fit"] in poss[los.get(cc, 0):started[cc] + 1], "status-not-a-prefix",
                                  f"{row} possible {poss}")
        via = feed(sim, sc, algo, cases, lambda c, a: {"case:concept:name": c, "concept:name": a}, terminate, watcher)
        for c, tr in cases.items():
            devs, fin = ref(tr)
            if c not in results:
                st = algo.get_status(c)
                sim.check(st == (devs[-1] == 0), "wrong-status", f"case {c} {tr}: fit={st}, deviations {devs}")
                results[c] = algo.terminate(c)
            sim.check(results[c] == (fin == 0), "wrong-verdict",
                      f"case {c} {tr}: fit={results[c]}, {fin} deviations; footprints {fp}")
        algo.terminate_all()
        sim.check(len(algo.get()) == 0, "case-not-released", "cases left after terminate_all()")
        # a released case identifier starts afresh
        c, tr = sorted(cases.items())[0]
        for a in tr:
            algo.receive({"case:concept:name": c, "concept:name": a})
        sim.check(algo.terminate(c) == (ref(tr)[1] == 0), "stale-state", f"second life of case {c}")
        sim.nontrivial = len(cases) >= 2 and sum(map(len, cases.values())) >= 4
        sim.cover("fp", sorted(results.items()), via)
    kw = util.swarm_sched(sim, PREF)
    kw["mean_gap"] *= 3
    util.run_threads(sim, body, **kw)


def temporal(sim):
    from pm4py.streaming.algo.conformance.temporal import algorithm as ta
    g = sim.gen
    acts = ACTS[:g.int(2, 4)]
    prof = {}
    for a in acts:
        for b in acts:
            if g.flag(0.7):
                prof[(a, b)] = (g.int(0, 50) * 2.0, g.pick([0.0, 1.0, 5.0]))
    zeta = g.pick([6.0, 1.0, 2.0])
    interval = g.flag(0.5)
    base = 1_600_000_000
    cases = {}
    for c in range(g.int(2, 4)):
        t = base + g.int(0, 10)
        tr = []
        for _ in range(g.int(1, 6)):
            t += g.int(0, 60)
            d = g.int(0, 20) if interval else 0
            tr.append((g.pick(acts), t, t + d))
        cases[f"c{c}"] = tr

    def ref(tr):
        devs = []
        out = [0]
        for j, (b, s, e) in enumerate(tr):
            for i in range(j):
                a, ps, pe = tr[i]
                if s >= pe and (a, b) in prof:
                    m, sd = prof[(a, b)]
                    diff = float(s - pe)
                    if diff < m - zeta * sd or diff > m + zeta * sd:
                        devs.append((a, b, diff))
            out.append(len(devs))
        return devs, out
    utc = datetime.timezone.utc

    def mk(c, x):
        a, s, e = x
        return {"case:concept:name": c, "concept:name": a, "time:timestamp": datetime.datetime.fromtimestamp(e, utc),
                "start_timestamp": datetime.datetime.fromtimestamp(s, utc)}

    def body(sc):
        from pm4py.streaming.algo.conformance.temporal.variants.classic import Parameters
        par = {Parameters.ZETA: zeta}
        if interval:
            par[Parameters.START_TIMESTAMP_KEY] = "start_timestamp"
        algo = ta.apply(prof, parameters=par)

        def watcher(started, finished):
            for _ in range(g.int(1, 5)):
                los = dict(finished)
                res = algo.get()
                sim.injected("concurrent-query")
                sim.check(res is not None, "query-failed", "get() returned None")
                for c, tr in cases.items():
                    n = len(res.get(c, ()))
                    poss = ref(tr)[1][los.get(c, 0):started[c] + 1]
                    sim.check(n in poss, "status-not-a-prefix", f"{c}: {n} deviations, possible {poss}")
                sc.yield_("think")
        via = feed(sim, sc, algo, cases, mk, None, watcher)
        res = algo.get()
        sim.check(res is not None, "query-failed", "get() returned None")
        for c, tr in cases.items():
            exp, _ = ref(tr)
            got = [(d[1], d[2], float(d[3])) for d in res.get(c, ())]
            sim.check(sorted(got) == sorted(exp), "wrong-verdict",
                      f"case {c} {tr}: deviations {got}, expected {exp} (zeta {zeta}, profile {prof})")
            sim.check(all(d[0] == c for d in res.get(c, ())), "wrong-verdict", f"{res.get(c)}")
            for d in res.get(c, ()):
                m, sd = prof[(d[1], d[2])]
                if sd > 0:
                    sim.check(abs(d[4] - abs(d[3] - m) / sd) < EPS, "wrong-verdict", f"{d}: number of deviations {m} {sd}")
        sim.check(set(res) <= set(cases), "phantom-case", f"{sorted(set(res) - set(cases))}")
        sim.nontrivial = len(cases) >= 2 and sum(map(len, cases.values())) >= 4
        sim.cover("tp", sorted((c, len(v)) for c, v in res.items()), via)
    kw = util.swarm_sched(sim, PREF)
    kw["mean_gap"] *= 3
    util.run_threads(sim, body, **kw)


SCENARIOS = [("footprints", footprints, 1), ("temporal", temporal, 1)]
