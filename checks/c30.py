"""C30: results do not depend on the time zone of the machine, nor on its clock changes."""
import datetime
import os
import time

from dst import catalogue as C, formats, fs, gen, seams, util

PROPERTY = "C30"
RUNS = {"quick": 400, "thorough": 16000}
RULE = ("one run = 10 operations of a catalogue of public functions on a log placed around the daylight saving changes of two time "
        "zones, each done in UTC and in a seeded time zone; or a file of one of the formats written in one time zone and read in "
        "another; or the simulation functions that create timestamps; non-trivial when the two zones have different offsets")
DISTINCT = "hash of the zones, the operations and their results"
REAL = ["the public functions of pm4py.stats, discovery, conformance, filtering, convert, ml, org, ocel, llm, sim, utils",
        "importers and exporters of every format", "the C library's time zone rules (POSIX TZ strings)"]
STUB = ["the time zone of the process: seeded per run (TZ and tzset)", "random numbers, uuids and identity hashes: seeded"]
ASSUMPTIONS = ["time zones are given as POSIX rules, no zone database is needed",
               "connectors of browsers and mail programs report local times by design and are left out"]
ZONES = ["CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<-11>11", "<+1245>-12:45",
         "<-03>3"]
UTC = datetime.timezone.utc
NEAR = [datetime.datetime(2024, 3, 31, 0, 30, tzinfo=UTC), datetime.datetime(2024, 10, 27, 0, 30, tzinfo=UTC),
        datetime.datetime(2024, 3, 10, 6, 30, tzinfo=UTC), datetime.datetime(2024, 11, 3, 5, 30, tzinfo=UTC),
        datetime.datetime(2024, 1, 1, 0, 0, 1, tzinfo=UTC)]


def zone(sim, z):
    old = os.environ.get("TZ")

    def back():
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()
    if not getattr(sim, "_tz", False):
        sim._tz = True
        sim.cleanups.append(back)
    os.environ["TZ"] = z
    time.tzset()


def others(sim):
    """more operations that handle dates"""
    g = sim.gen

    def kde(E):
        from pm4py.statistics.attributes.log import get as A
        return A.get_kde_date_attribute(E.log, "time:timestamp")

    def kde_df(E):
        from pm4py.statistics.attributes.pandas import get as A
        return A.get_kde_date_attribute(E.df, "time:timestamp")

    def kde_json(E):
        from pm4py.statistics.attributes.log import get as A
        return A.get_kde_date_attribute_json(E.log, "time:timestamp")

    def distribution(E):
        from pm4py.statistics.attributes.log import get as A
        from pm4py.statistics.attributes.pandas import get as B
        k = g2.pick(["days_month", "months", "years", "hours", "days_week", "weeks"])
        return A.get_events_distribution(E.log, distr_type=k), B.get_events_distribution(E.df, distr_type=k)

    def spectrum(E):
        from pm4py.algo.discovery.performance_spectrum import algorithm as P
        return P.apply(E.log, E.acts[:2]), P.apply(E.df, E.acts[:2])

    def format_df(E):
        import pandas as pd
        import pm4py
        df = pd.DataFrame({"case": ["1", "1", "2"], "act": ["a", "b", "a"],
                           "ts": ["2024-03-31 02:30:00", "2024-03-31T03:30:00", "2024-10-27 02:30:00"]})
        return pm4py.format_dataframe(df, case_id="case", activity_key="act", timestamp_key="ts")

    def parsed(E):
        import pm4py
        log = pm4py.parse_event_log_string(["a,b,c", "a,c"])
        return log, pm4py.parse_event_log_string(["a,b"], return_legacy_log_object=True)

    def resources(E):
        from pm4py.algo.organizational_mining.resource_profiles import algorithm as R
        a, b = "2024-03-30 00:00:00", "2024-11-30 00:00:00"
        r = E.res[0]
        return (R.distinct_activities(E.log, a, b, r), R.average_workload(E.log, a, b, r), R.multitasking(E.log, a, b, r),
                R.average_workload(E.df, a, b, r), R.multitasking(E.df, a, b, r), R.activity_completions(E.log, a, b, r))

    def lifecycle(E):
        from pm4py.objects.log.util import interval_lifecycle as I
        return I.assign_lead_cycle_time(E.log, parameters={"business_hours": True, I.Parameters.START_TIMESTAMP_KEY: "start_timestamp"})

    def montecarlo(E):
        from pm4py.algo.simulation.montecarlo import algorithm as M
        from pm4py.algo.simulation.montecarlo.variants import petri_semaph_fifo as V
        # one case: with several, their order depends on the schedule
        prm = {V.Parameters.PARAM_NUM_SIMULATIONS: 1, V.Parameters.PARAM_MAX_THREAD_EXECUTION_TIME: 100}
        return util.run_threads(sim, lambda sc: M.apply(E.log, E.net, E.im, E.fm, parameters=prm))

    def stochastic(E):
        from pm4py.algo.simulation.playout.petri_net.variants import stochastic_playout as P
        return P.apply(E.net, E.im, E.fm, parameters={P.Parameters.NO_TRACES: 3, P.Parameters.LOG: E.log})

    def perf_playout(E):
        import pm4py
        from pm4py.algo.simulation.playout.dfg.variants import performance as P
        pd_, sa, ea = pm4py.discover_performance_dfg(E.log)
        fd = pm4py.discover_dfg(E.log)[0]
        return P.apply(fd, sa, ea, parameters={P.Parameters.NUM_TRACES: 3, P.Parameters.PERFORMANCE_DFG: {k: v["mean"] for k, v in pd_.items()}})

    def tree_log(E):
        from pm4py.objects.process_tree import semantics as S
        return S.generate_log(E.tree, no_traces=3)

    def filters(E):
        from pm4py.algo.filtering.log.timestamp import timestamp_filter as T
        from pm4py.algo.filtering.pandas.timestamp import timestamp_filter as P
        t = E.d["cases"][0][1][0][2]
        lo = (t - datetime.timedelta(minutes=30)).replace(tzinfo=None)
        hi = (t + datetime.timedelta(hours=g2.int(0, 30))).replace(tzinfo=None)
        return T.apply_events(E.log, lo, hi), P.apply_events(E.df, lo, hi), T.filter_traces_contained(E.log, lo, hi), \
            P.filter_traces_intersecting(E.df, lo, hi)

    def streaming(E):
        from pm4py.streaming.algo.conformance.temporal import algorithm as T
        import pm4py
        prof = pm4py.discover_temporal_profile(E.log)
        al = T.apply(prof, parameters={"zeta": 0.1})
        for e in pm4py.convert_to_event_stream(E.log):
            al._process(e)
        return al._current_result()

    def ocel(E):
        import pm4py
        return pm4py.filter_ocel_events_timestamp(E.ocel, NEAR[0], NEAR[1] + datetime.timedelta(seconds=1))

    class g2:
        pick = staticmethod(lambda seq: seq[n % len(seq)])
        int = staticmethod(lambda a, b: a + n % (b - a + 1))
    n = g.int(0, 59)
    return {f.__name__: f for f in (kde, kde_df, kde_json, distribution, spectrum, format_df, parsed, resources, lifecycle, montecarlo,
                                    stochastic, perf_playout, tree_log, filters, streaming, ocel)}


def compare(sim, picks, d):
    g = sim.gen
    z = g.pick(ZONES)
    z0 = "UTC0" if g.flag(0.8) else g.pick(ZONES)
    seed = g.int(1, 10 ** 6)
    res = {}
    for k in (z0, z):
        zone(sim, k)
        for i, (name, call) in enumerate(picks):
            E = C.fresh(d, seed)
            C.reseed(seed + 1)
            seams.set_clock(seams.Clock(sim, start=1_711_845_000.0, tick=0.001))
            try:
                res.setdefault(i, []).append(C.outcome(call, E))
            finally:
                seams.set_clock(None)
    sim.injected("time-zone")
    for i, (name, _) in enumerate(picks):
        a, b = res[i]
        sim.check(a == b, "depends-on-the-time-zone", lambda: f"{name} ({z0} and {z}): {C.diff(a, b)}")
        sim.ev(name, z, str(a)[:80])
        if isinstance(a, tuple) and a and a[0] == "raised":
            sim.probe("operation raised")
    sim.cover(z0, z, sorted(n for n, _ in picks), d["cases"])
    sim.nontrivial = z != z0


def catalogue(sim):
    g = sim.gen
    d = C.describe(g, near=NEAR)
    ops = [o for o in C.ops() if not o.slow or g.flag(0.2)]
    compare(sim, [(o.name, o.make(g, d)) for o in g.sample(ops, 10)], d)


def dates(sim):
    g = sim.gen
    d = C.describe(g, near=NEAR)
    ops = others(sim)
    compare(sim, [(n, ops[n]) for n in g.sample(sorted(ops), 3)], d)


def files(sim):
    g = sim.gen
    f = g.pick(formats.ALL)
    z1, z2 = g.pick(ZONES + ["UTC0"]), g.pick(ZONES + ["UTC0"])
    o = f.gen(g)
    want = f.expect(o)
    disk = fs.FS(sim)
    p = disk.path("f" + f.ext)
    zone(sim, z1)
    f.write(o, p)
    zone(sim, z2)
    got = f.norm(f.read(p))
    sim.injected("time-zone")
    sim.check(got == want, "depends-on-the-time-zone", lambda: f"{f.name} written in {z1}, read in {z2}: {gen.first_diff(want, got)}")
    sim.ev(f.name, z1, z2)
    sim.cover(f.name, z1, z2, str(want))
    sim.nontrivial = z1 != z2


SCENARIOS = [("catalogue", catalogue, 5), ("dates", dates, 3), ("files", files, 2)]
