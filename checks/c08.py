"""C08: the adapters between stored logs and live streams neither lose, invent, mix up nor reorder anything."""
import collections
import datetime

from dst import util

PROPERTY = "C08"
RUNS = {"quick": 1600, "thorough": 60000}
RULE = ("one run = a generated dataframe / object-centric log / sequence of events pushed through from_pandas, the OCEL "
        "distributor or the live-to-static converter into live streams under a seeded schedule; non-trivial when >= 3 "
        "events and >= 2 cases went through")
DISTINCT = "hash of the thread switches and of what every receiver got"
REAL = ["pm4py.streaming.conversion.from_pandas", "pm4py.streaming.conversion.ocel_flatts_distributor",
        "pm4py.objects.ocel.util.ocel_iterator", "pm4py.streaming.util.live_to_static_stream",
        "pm4py.streaming.stream.*", "pandas"]
STUB = ["lock primitive, OS thread scheduling, clock (simulated)", "observers (recording)"]
ASSUMPTIONS = []
PREF = (util.REPO + "/pm4py/streaming",)
BASE = datetime.datetime(2021, 3, 1, 12, tzinfo=datetime.timezone.utc)


def recorder(sim, name):
    from pm4py.streaming.algo.interface import StreamingAlgorithm

    class Rec(StreamingAlgorithm):
        def __init__(self):
            super().__init__()
            self.seen = []

        def _process(self, x):
            if sim.schedule.flag(0.1):
                sim.sched.sleep(0.01)
                sim.injected("slow-observer")
            self.seen.append(x)

        def _current_result(self):
            return list(self.seen)
    return Rec()


def sched(sim, body):
    kw = util.swarm_sched(sim, PREF)
    kw["mean_gap"] *= 4
    util.run_threads(sim, body, **kw)


def from_pandas(sim):
    import pandas as pd
    from pm4py.streaming.conversion import from_pandas as fp
    from pm4py.streaming.stream.live_trace_stream import LiveTraceStream
    import pm4py
    g = sim.gen
    ncases = g.int(1, 6)
    rows = []
    for c in range(ncases):
        t = g.int(0, 5)
        for _ in range(g.int(1, 6)):
            t += g.pick([1, 0, 60])
            rows.append([f"c{c}", g.pick("ABCD"), BASE + datetime.timedelta(seconds=t)])
    rows = [r + [i] for i, r in enumerate(rows)]
    mode = g.pick(["sorted", "shuffled", "interleaved", "reversed"])
    if mode == "shuffled":
        rows = g.shuffle(rows)
    elif mode == "interleaved":
        rows = sorted(rows, key=lambda r: (r[2], g.int(0, 9)))
    elif mode == "reversed":
        rows = rows[::-1]
    if mode != "sorted":
        sim.injected("disordered-rows")
    ck, ak, tk = g.pick([("case:concept:name", "concept:name", "time:timestamp"), ("cid", "act", "ts")])
    df = pd.DataFrame([{ck: r[0], ak: r[1], tk: r[2], "mark": r[3]} for r in rows])
    if g.flag(0.5):
        idx = g.shuffle(list(range(len(df))))
        df.index = idx
    if g.flag(0.4):
        df.attrs["pm4py:param:case_id_key"] = ck
    before = df.copy()
    exp = {}
    for c in sorted({r[0] for r in rows}):
        sub = [(r[2], pos, r[1]) for pos, r in enumerate(rows) if r[0] == c]
        exp[c] = [(a, t) for t, _, a in sorted(sub)]

    def body(sc):
        par = {fp.Parameters.CASE_ID_KEY: ck, fp.Parameters.ACTIVITY_KEY: ak, fp.Parameters.TIMESTAMP_KEY: tk}
        it = fp.apply(df, parameters=par)
        first = []
        if g.flag(0.4):
            for _ in range(g.int(1, ncases)):
                tr = next(it)
                first.append(tr)
            if g.flag(0.5):
                it.reset()
                first = []
                sim.injected("reset-mid-iteration")
        st = LiveTraceStream()
        obs = [recorder(sim, k) for k in range(g.int(1, 3))]
        for o in obs:
            st.register(o)
        st.start()
        it.to_trace_stream(st)
        st.stop()
        for o in obs:
            verify(sim, first + o.seen, exp)
        it.reset()
        verify(sim, list(it), exp)
        sim.check(before.equals(df), "input-changed", "the dataframe was modified")
        sim.nontrivial = ncases >= 2 and len(rows) >= 3
        sim.cover("fp", mode, sorted((k, tuple(v)) for k, v in exp.items()))
    sched(sim, body)


def verify(sim, traces, exp):
    import pandas as pd
    cnt = collections.Counter(t.attributes["concept:name"] for t in traces)
    sim.check(all(v == 1 for v in cnt.values()), "duplicate-trace", f"{cnt}")
    sim.check(set(cnt) == set(exp), "lost-trace", f"received {sorted(cnt)}, expected {sorted(exp)}")
    for t in traces:
        c = t.attributes["concept:name"]
        got = [(e["concept:name"], pd.Timestamp(e["time:timestamp"])) for e in t]
        want = [(a, pd.Timestamp(x)) for a, x in exp[c]]
        got = [(a, x.tz_localize("UTC") if x.tzinfo is None else x) for a, x in got]
        sim.check(got == want, "wrong-trace", f"case {c}: {[a for a, _ in got]}, expected {[a for a, _ in want]}")


def ocel(sim):
    import pandas as pd
    from pm4py.objects.ocel.obj import OCEL
    from pm4py.objects.ocel.util import ocel_iterator
    from pm4py.streaming.conversion.ocel_flatts_distributor import OcelFlattsDistributor
    from pm4py.streaming.stream.live_event_stream import LiveEventStream
    from pm4py.streaming.util.live_to_static_stream import LiveToStaticStream
    g = sim.gen
    types = ["order", "item", "order item"][:g.int(1, 3)]
    objs = [(f"{t[0]}{k}", t) for t in types for k in range(g.int(1, 3))]
    objs = [(f"{i}-{o}", t) for i, (o, t) in enumerate(objs)]
    evs, rels = [], []
    t = 0
    for i in range(g.int(1, 8)):
        t += g.int(0, 100)
        rel = g.subset(objs, 0.4) or [g.pick(objs)]
        a = g.pick("ABC")
        ts = BASE + datetime.timedelta(seconds=t)
        evs.append({"ocel:eid": f"e{i}", "ocel:activity": a, "ocel:timestamp": ts,
                    **({"cost": float(g.int(0, 9))} if g.flag(0.5) else {})})
        for o, ot in rel:
            rels.append({"ocel:eid": f"e{i}", "ocel:activity": a, "ocel:timestamp": ts, "ocel:oid": o, "ocel:type": ot})
    oc = OCEL(events=pd.DataFrame(evs), objects=pd.DataFrame([{"ocel:oid": o, "ocel:type": ot} for o, ot in objs]),
              relations=pd.DataFrame(rels))

    def body(sc):
        dist = OcelFlattsDistributor()
        outs = []
        for ot in types:
            for _ in range(g.int(0, 2)):
                st = LiveEventStream()
                o = LiveToStaticStream() if g.flag(0.5) else recorder(sim, ot)
                st.register(o)
                dist.register(ot, st)
                st.start()
                outs.append((ot, st, o))
        events = list(ocel_iterator.apply(oc))
        n = g.int(1, 2)
        parts = [events[k::n] for k in range(n)]
        util.spawn(sc, [(f"P{k}", lambda p=p: [dist.append(e) for e in p]) for k, p in enumerate(parts)])()
        for _, st, _ in outs:
            st.stop()
        for ot, st, o in outs:
            got = [dict(e) for e in o.get()]
            ev = {e["ocel:eid"]: e for e in evs}
            want = collections.Counter((r["ocel:eid"], r["ocel:oid"]) for r in rels if r["ocel:type"] == ot)
            have = collections.Counter((e.get("ocel:eid"), e.get("case:concept:name")) for e in got)
            sim.check(have == want, "wrong-flattening", f"type {ot}: lost {want - have}, invented {have - want}")
            for e in got:
                r = ev[e["ocel:eid"]]
                sim.check(e["concept:name"] == r["ocel:activity"] and pd.Timestamp(e["time:timestamp"]) == r["ocel:timestamp"],
                          "wrong-flattening", f"{e} from {r}")
                sim.check(("cost" in e) == ("cost" in r) and e.get("cost") == r.get("cost"), "wrong-flattening",
                          f"attributes of {e} from {r}")
                sim.check(not any(k.startswith("ocel:type") for k in e), "wrong-flattening", f"{e}")
            for p in parts:
                ids = [e["ocel:eid"] for e in p]
                seq = [ids.index(e["ocel:eid"]) for e in got if e["ocel:eid"] in ids]
                sim.check(seq == sorted(seq), "reordered", f"type {ot}: {seq}")
        sim.nontrivial = len(outs) >= 1 and len(rels) >= 3
        sim.cover("ocel", [(ot, [(e["ocel:eid"], e["case:concept:name"]) for e in o.get()]) for ot, _, o in outs])
    sched(sim, body)


def to_static(sim):
    from pm4py.streaming.stream.live_event_stream import LiveEventStream
    from pm4py.streaming.util.live_to_static_stream import LiveToStaticStream
    g = sim.gen

    def body(sc):
        st = LiveEventStream()
        obs = [LiveToStaticStream() for _ in range(g.int(1, 3))]
        for o in obs:
            st.register(o)
        st.start()
        todo = [[(k, i) for i in range(g.int(1, 6))] for k in range(g.int(1, 3))]
        acked = collections.Counter()

        def prod(lst):
            def f():
                for x in lst:
                    st.append({"concept:name": "A", "case:concept:name": f"c{x[0]}", "x": x})
                    acked[x[0]] += 1
            return f

        def watch():
            for _ in range(g.int(1, 4)):
                o = g.pick(obs)
                r = o.get()
                sim.injected("concurrent-query")
                check(list(r))
                sc.sleep(0.01)

        def check(evs):
            for k, lst in enumerate(todo):
                mine = [e["x"] for e in evs if e["x"][0] == k]
                sim.check(mine == lst[:len(mine)], "not-a-prefix", f"producer {k}: {mine} of {lst}")
        util.spawn(sc, [(f"P{k}", prod(l)) for k, l in enumerate(todo)] + [("W", watch)])()
        st.stop()
        res = []
        for o in obs:
            evs = list(o.get())
            check(evs)
            sim.check(len(evs) == sum(map(len, todo)), "lost-event", f"{len(evs)} of {sum(map(len, todo))}")
            res.append([e["x"] for e in evs])
        sim.check(all(r == res[0] for r in res), "receivers-disagree", f"{res}")
        sim.nontrivial = len(todo) >= 2 and len(res[0]) >= 3
        sim.cover("static", res[0])
    sched(sim, body)


SCENARIOS = [("from_pandas", from_pandas, 2), ("ocel", ocel, 2), ("to_static", to_static, 1)]
