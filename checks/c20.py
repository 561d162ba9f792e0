"""C20: sampling and splitting a log keep whole cases, the requested number of them, and lose or duplicate nothing else."""
import copy

from dst import gen as G

PROPERTY = "C20"
RUNS = {"quick": 12000, "thorough": 200000}
RULE = ("one run = one sampling or splitting call on a generated log, stream, dataframe or object-centric log with seeded sizes and an adversary "
        "that may skew the draws; non-trivial when the log holds >= 2 cases (events, objects) and the request keeps some and drops some")
DISTINCT = "hash of the input and of what was kept"
REAL = ["pm4py.sample_cases / sample_events / sample_ocel_* / split_train_test", "random, numpy.random, pandas"]
STUB = []
ASSUMPTIONS = ["case identifiers are unique in event logs and not missing in dataframes",
               "the connected components of an object-centric log are those of its interaction graph (objects that never interact belong to none)"]


def meta(log):
    return G.norm_log(log)[0]


def logs(sim):
    import pm4py
    from pm4py.objects.log.obj import EventStream
    from pm4py.objects.log.util import sampling
    g = sim.gen
    log = G.event_log(g, depth=1, ntr=(0, 9), nev=(0, 3), hard=g.flag(0.3))
    for i, tr in enumerate(log):
        tr.attributes["concept:name"] = f"c{i}"
    if g.flag(0.4):
        log.properties["pm4py:param:activity_key"] = g.pick(["concept:name", "act"])
    before = G.norm_log(log)
    props = dict(log.properties)
    ids = [id(t) for t in log]
    kind = g.pick(["sample", "split", "stream"])
    sim.skew_draws(limit=5000)
    if kind == "sample":
        n = g.int(0, 11)
        out = pm4py.sample_cases(log, n) if g.flag(0.7) else (pm4py.sample_events(log, n) if g.flag(0.5) else sampling.sample(log, n))
        sim.check(len(out) == min(n, len(log)), "number", f"{len(out)} cases, {n} of {len(log)} requested")
        got = [before[1][ids.index(id(t))] if id(t) in ids else G.norm_log([t])[1][0] for t in out]
        names = [t.attributes["concept:name"] for t in out]
        sim.check(len(set(names)) == len(names), "duplicate-case", f"{names}")
        for t in out:
            sim.check((G.norm_attrs(t.attributes), tuple(G.norm_attrs(dict(e)) for e in t)) in before[1], "changed-case", lambda: f"{t}")
        sim.check(meta(out) == before[0], "lost-metadata", lambda: G.first_diff(meta(out), before[0]))
        sim.check(dict(out.properties) == props, "lost-metadata", lambda: f"properties {out.properties} instead of {props}")
        sim.nontrivial = 0 < n < len(log)
        kept = names
    elif kind == "split":
        p = g.pick([0.0, 0.1, 0.5, 0.8, 1.0, 0.999])
        train, test = pm4py.split_train_test(log, train_percentage=p)
        names = [t.attributes["concept:name"] for x in (train, test) for t in x]
        sim.check(sorted(names) == sorted(t.attributes["concept:name"] for t in log), "partition", f"{names}")
        sim.check(abs(len(train) - p * len(log)) <= 1 + 1e-9, "number", f"{len(train)} of {len(log)} cases for training, fraction {p}")
        for x in (train, test):
            for t in x:
                sim.check((G.norm_attrs(t.attributes), tuple(G.norm_attrs(dict(e)) for e in t)) in before[1], "changed-case", lambda: f"{t}")
            sim.check(meta(x) == before[0], "lost-metadata", lambda: G.first_diff(meta(x), before[0]))
            sim.check(dict(x.properties) == props, "lost-metadata", lambda: f"properties {x.properties} instead of {props}")
        sim.nontrivial = bool(len(train) and len(test))
        kept = names
    else:
        st = EventStream([e for t in log for e in t], attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
                         omni_present=log.omni_present)
        n = g.int(0, 12)
        out = pm4py.sample_events(st, n)
        sim.check(isinstance(out, EventStream) and len(out) == min(n, len(st)), "number", f"{len(out)} events, {n} of {len(st)} requested")
        own = [id(e) for e in st]
        pos = [own.index(id(e)) for e in out if id(e) in own]
        sim.check(len(pos) == len(out) and len(set(pos)) == len(pos), "duplicate-event", f"{pos} of {len(out)}")
        sim.nontrivial = 0 < n < len(st)
        kept = pos
    sim.check(G.norm_log(log) == before, "input-changed", lambda: G.first_diff(G.norm_log(log), before))
    sim.cover(repr(before), kept)


def frames(sim):
    import datetime
    import pandas as pd
    import pm4py
    g = sim.gen
    key = g.pick(["case:concept:name", "case:concept:name", "cid"])
    rows = []
    for c in range(g.int(1, 8)):
        for e in range(g.int(1, 4)):
            rows.append({key: f"c{c}", "concept:name": g.pick(["A", "B"]), "time:timestamp": G.when(g, False), "row": len(rows)})
    if g.flag(0.3):
        rows = g.shuffle(rows)
    df = pd.DataFrame(rows)
    df.index = g.pick([lambda: df.index, lambda: pd.Index([7] * len(df)), lambda: pd.Index(range(len(df), 0, -1))])()
    before = df.copy()
    cases = list(dict.fromkeys(df[key]))
    of = {c: [r["row"] for r in rows if r[key] == c] for c in cases}
    kind = g.pick(["cases", "split", "events"])
    sim.skew_draws(limit=5000)
    if kind == "cases":
        n = g.int(0, 10)
        out = pm4py.sample_cases(df, n, case_id_key=key)
        kept = list(dict.fromkeys(out[key]))
        sim.check(len(kept) == min(n, len(cases)), "number", f"{len(kept)} cases, {n} of {len(cases)} requested")
        want = [r["row"] for r in rows if r[key] in kept]
        sim.check(list(out["row"]) == want, "changed-case", lambda: f"rows {list(out['row'])} instead of {want}")
        sim.nontrivial = 0 < n < len(cases)
    elif kind == "split":
        p = g.pick([0.1, 0.5, 0.8, 1.0])
        train, test = pm4py.split_train_test(df, train_percentage=p, case_id_key=key)
        a, b = set(train[key]), set(test[key])
        sim.check(not a & b and a | b == set(cases), "partition", f"{sorted(a)} and {sorted(b)}")
        for x, s in ((train, a), (test, b)):
            want = [r["row"] for r in rows if r[key] in s]
            sim.check(list(x["row"]) == want, "changed-case", lambda: f"rows {list(x['row'])} instead of {want}")
        sim.check(p < 1.0 or not b, "partition", f"{sorted(b)} for test although all cases are for training")
        sim.nontrivial = bool(a and b)
        kept = sorted(a)
    else:
        n = g.int(0, len(rows) + 2)
        out = pm4py.sample_events(df, n)
        kept = list(out["row"])
        sim.check(len(kept) == min(n, len(rows)) and len(set(kept)) == len(kept) and set(kept) <= set(range(len(rows))), "number",
                  f"events {kept}, {n} of {len(rows)} requested")
        sim.nontrivial = 0 < n < len(rows)
    pd.testing.assert_frame_equal(df, before)
    sim.cover(repr(rows), kept)


def ocels(sim):
    import pm4py
    g = sim.gen
    oc = G.ocel(g, v2=g.flag(0.5), hard=0.1)
    # events without objects and objects without events stay possible
    if g.flag(0.3):
        drop = g.pick(list(oc.relations["ocel:eid"]))
        oc.relations = oc.relations[oc.relations["ocel:eid"] != drop]
    evs = list(oc.events["ocel:eid"])
    e2e = [{"ocel:eid": a, "ocel:eid_2": b, "ocel:qualifier": "q"} for a in evs for b in evs if a != b and g.flag(0.15)]
    if e2e:
        import pandas as pd
        oc.e2e = pd.DataFrame(e2e)
    before = G.norm_ocel(oc, True)
    evs, obs = list(oc.events["ocel:eid"]), list(oc.objects["ocel:oid"])
    rel = [(r["ocel:eid"], r["ocel:oid"]) for r in oc.relations.to_dict("records")]
    kind = g.pick(["events", "objects", "components"])
    n = g.int(0, 6)
    sim.skew_draws(limit=5000)
    if kind == "events":
        out = pm4py.sample_events(oc, n)
        se = set(out.events["ocel:eid"])
        so = {o for e, o in rel if e in se}
        sim.check(len(out.events) == min(n, len(evs)) and len(se) == len(out.events), "number",
                  f"{sorted(se)}: {n} of {len(evs)} events requested")
        total = len(evs)
    elif kind == "objects":
        out = pm4py.sample_ocel_objects(oc, n)
        so = set(out.objects["ocel:oid"])
        se = {e for e, o in rel if o in so}
        sim.check(len(out.objects) == min(n, len(obs)) and len(so) == len(out.objects), "number",
                  f"{sorted(so)}: {n} of {len(obs)} objects requested")
        total = len(obs)
    else:
        comp = {}
        for e in evs:
            os = [o for x, o in rel if x == e]
            for o in os[1:]:
                a, b = comp.setdefault(os[0], {os[0]}), comp.setdefault(o, {o})
                u = a | b
                for x in u:
                    comp[x] = u
        comps = list({id(c): c for c in comp.values()}.values())
        kw = {}
        if g.flag(0.4):
            m = kw["max_num_objects_per_cc"] = g.int(1, 4)
            comps = [c for c in comps if len(c) <= m]
        if g.flag(0.3):
            m = kw["max_num_events_per_cc"] = g.int(1, 4)
            comps = [c for c in comps if len({e for e, o in rel if o in c}) <= m]
        if g.flag(0.3):
            m = kw["max_num_e2o_relations_per_cc"] = g.int(1, 6)
            comps = [c for c in comps if sum(o in c for e, o in rel) <= m]
        out = pm4py.sample_ocel_connected_components(oc, n, **kw)
        so = set(out.objects["ocel:oid"])
        se = {e for e, o in rel if o in so}
        picked = [c for c in comps if c <= so]
        sim.check(len(picked) == min(n, len(comps)) and set().union(*picked) == so, "number",
                  f"objects {sorted(so)}: {n} of the components {[sorted(c) for c in comps]} requested")
        total = len(comps)
    full = G.norm_ocel(oc, True)
    norm = G.norm_ocel(out, True)

    def pickrows(rows, f):
        return tuple(r for r in rows if f({k: v[1] for k, v in r}))
    want = [pickrows(full[0], lambda r: r["ocel:eid"] in se), pickrows(full[1], lambda r: r["ocel:oid"] in so),
            pickrows(full[2], lambda r: r["ocel:eid"] in se and r["ocel:oid"] in so)]
    for i, part in enumerate(["events", "objects", "relations"]):
        sim.check(norm[i] == want[i], "changed-" + part, lambda: G.first_diff(norm[i], want[i]))
    if kind != "components":
        w3 = pickrows(full[3], lambda r: r["ocel:oid"] in so and r["ocel:oid_2"] in so)
        w4 = pickrows(full[4], lambda r: r["ocel:oid"] in so)
        sim.check(norm[3] == w3, "changed-o2o", lambda: G.first_diff(norm[3], w3))
        sim.check(norm[4] == w4, "changed-object-changes", lambda: G.first_diff(norm[4], w4))
        w5 = sorted((r["ocel:eid"], r["ocel:eid_2"]) for r in e2e if r["ocel:eid"] in se and r["ocel:eid_2"] in se)
        g5 = sorted((r["ocel:eid"], r["ocel:eid_2"]) for r in out.e2e.to_dict("records"))
        sim.check(g5 == w5, "changed-e2e", lambda: f"{g5} instead of {w5}")
    sim.check(G.norm_ocel(oc, True) == before, "input-changed", lambda: G.first_diff(G.norm_ocel(oc, True), before))
    sim.check(len(oc.e2e) == len(e2e), "input-changed", "e2e")
    sim.nontrivial = 0 < n < total
    sim.cover(repr(before), sorted(se) + sorted(so))


SCENARIOS = [("logs", logs, 2), ("frames", frames, 2), ("ocels", ocels, 1)]
