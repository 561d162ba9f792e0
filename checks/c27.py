"""C27: the inductive miner with worker processes discovers the model it discovers without, or raises the failure of a worker."""
from dst import gen, procs, ptlang, util
from checks import c21

PROPERTY = "C27"
RUNS = {"quick": 10000, "thorough": 200000}
RULE = ("one run = the inductive miner (IM, IMf, IMd, POWL) on a generated log whose cuts need the search for a concurrent activity, "
        "with 1 to 6 simulated worker processes under a seeded schedule, half of the runs with failing tasks; "
        "non-trivial when >= 2 tasks were started")
DISTINCT = "hash of the log, the variant, the thread switches and the order in which the tasks ended"
REAL = ["pm4py.algo.discovery.inductive", "pm4py.algo.discovery.powl", "pickle"]
STUB = ["multiprocessing.Pool and Manager: processes are threads of the simulator, everything exchanged is pickled", "os.cpu_count"]
ASSUMPTIONS = ["the number of activities above which processes are used is lowered in most runs",
               "multiprocessing.Pool does not notice a killed worker: crashes of workers are not injected"]


def a_log(g, n):
    acts = [f"a{i:02d}" for i in range(n)]
    k = g.pick(["noise", "blocks", "blocks", "one-free"])
    traces = []
    for _ in range(g.int(2, 7)):
        if k == "noise":
            w = [g.pick(acts) for _ in range(g.int(1, n + 3))]
        else:
            # two sequential parts with a free activity (or two) anywhere: removing it leaves a cut
            free = acts[:g.int(1, 2)]
            rest = acts[len(free):]
            w = [a for a in rest if g.flag(0.8)]
            if k == "blocks" and len(w) > 2:
                for _ in range(g.int(0, 2)):
                    i = g.int(0, len(w) - 2)
                    w[i], w[i + 1] = w[i + 1], w[i]
            for f in free:
                for _ in range(g.int(1, 2)):
                    w.insert(g.int(0, len(w)), f)
        traces.append(tuple(w))
    g.shuffle(traces)
    return traces


def norm(x):
    if hasattr(x, "operator") and hasattr(x, "label") and hasattr(x, "children") and not hasattr(x, "partial_order"):
        return gen.norm_tree(x, False)
    return str(x)


def setting(sim):
    from pm4py.algo.discovery.inductive.fall_through import activity_concurrent as ac
    g = sim.gen
    big = g.flag(0.06)
    bound = getattr(ac.ActivityConcurrentUVCL, "MULTI_PROCESSING_LOWER_BOUND", None)
    if not big and isinstance(bound, int):
        b = g.int(1, 4)
        ac.ActivityConcurrentUVCL.MULTI_PROCESSING_LOWER_BOUND = b
        sim.cleanups.append(lambda: setattr(ac.ActivityConcurrentUVCL, "MULTI_PROCESSING_LOWER_BOUND", bound))
    return g.int(21, 24) if big else g.int(3, 7)


def im(sim):
    import pm4py
    from pm4py.algo.discovery.inductive import algorithm as A
    from checks.c23 import log_of
    g = sim.gen
    n = setting(sim)
    traces = a_log(g, n)
    df = g.flag(0.3) and all(traces)
    log = log_of(traces, how="df" if df else "log")
    kind = g.weighted([("IM", 5), ("IMf", 3), ("simplified", 2), ("powl", 2), ("IMd", 1)])
    noise = g.pick([0.0, 0.2, 0.5])

    def call(mp):
        par = {"multiprocessing": mp}
        if kind == "IM":
            return A.apply(log, variant=A.Variants.IM, parameters=par)
        if kind == "IMf":
            return A.apply(log, variant=A.Variants.IMf, parameters={**par, "noise_threshold": noise})
        if kind == "IMd":
            return A.apply(log, variant=A.Variants.IMd, parameters=par)
        if kind == "simplified":
            return pm4py.discover_process_tree_inductive(log, noise_threshold=noise, multi_processing=mp)
        from pm4py.algo.discovery.powl import algorithm as P
        return P.apply(log, parameters=par)

    seq = call(False)
    plan = procs.Plan(sim, cpus=g.pick([1, 2, 3, 4, 7]))
    if sim.fault.flag(0.4):
        plan.fail_at = sim.fault.int(1, 8)
        plan.fail_with = sim.fault.pick([c21.WorkerFailed("x"), MemoryError("x"), OSError(28, "No space left on device")])
    res, exc = c21.run(sim, plan, lambda: call(True))
    if exc is not None:
        if plan.fail_at is None or plan.fail_at > plan.started:
            raise exc
        sim.check(type(exc) is type(plan.fail_with), "fault-changed", lambda: f"{exc!r} instead of {plan.fail_with!r}")
    else:
        sim.check(norm(res) == norm(seq), "differs", lambda: f"{kind} {noise} {traces}: {seq}, with processes {res}")
    for m in (seq, res):
        if m is not None and (kind == "IM" or kind in ("IMf", "simplified") and noise == 0.0):
            e = ptlang.of(m)
            for w in set(traces):
                sim.check(ptlang.accepts(e, w), "trace-does-not-fit", lambda: f"{kind} {m} does not accept {w} {traces}")
    sim.cover(kind, noise, traces, plan.order, plan.cpus, plan.fail_at)
    sim.ev("order", plan.order)
    sim.nontrivial = plan.started > 1


SCENARIOS = [("im", im, 1)]
