"""C21: alignments, fitness and precision computed by worker processes equal the sequential ones, or an exception says why not."""
import concurrent.futures.process as cfp
import pickle

from dst import alref, gen, procs, util
from checks import c23

PROPERTY = "C21"
RUNS = {"quick": 6000, "thorough": 100000}
RULE = ("one run = a log of <= 8 noisy traces (duplicates included) aligned by simulated worker processes (1 to 6 cores, 1 to 5 "
        "workers, with and without progress bar) under a seeded schedule, with worker crashes, failing tasks and parameters that "
        "cannot be sent; non-trivial when >= 2 tasks were done by workers")
DISTINCT = "hash of the model, the traces, the thread switches and the order in which the tasks ended"
REAL = ["pm4py.algo.conformance.alignments.petri_net.algorithm.apply_multiprocessing", "process_tree search_graph_pt.apply_multiprocessing",
        "pm4py.algo.evaluation.precision.variants.align_etconformance", "pm4py.algo.evaluation.replay_fitness.variants.alignment_based",
        "pm4py.conformance", "concurrent.futures.Future, pickle"]
STUB = ["ProcessPoolExecutor: workers are threads of the simulator, everything they receive and return is pickled",
        "tqdm: a bar that counts", "os.cpu_count"]
ASSUMPTIONS = ["a crashed worker breaks the pool, as concurrent.futures specifies"]


class WorkerFailed(Exception):
    pass


def case(sim, kind):
    g = sim.gen
    if kind == "tree":
        tree = c23.tree_of(g)
        traces = [c23.tree_trace(g, tree) for _ in range(g.int(1, 5))]
        model = tree
    else:
        net, im, fm, ref = c23.a_net(g, free=0.25)
        acts = sorted({ref.label[t] for t in ref.trans if ref.label[t] is not None} | {"a", "b"})
        traces = [c23.a_trace(g, acts, ref, im) for _ in range(g.int(1, 5))]
        model = (net, im, fm, ref)
    for _ in range(g.weighted([(0, 2), (1, 2), (3, 1)])):
        traces.insert(g.int(0, len(traces)), g.pick(traces))
    return model, traces


def environment(sim):
    g = sim.gen
    plan = procs.Plan(sim, cpus=g.pick([1, 2, 3, 4, 6]))
    what = sim.fault.weighted([("none", 5), ("kill", 2), ("fail", 2), ("unpicklable", 1)])
    if what == "kill":
        plan.kill_at = sim.fault.int(1, 5)
    elif what == "fail":
        plan.fail_at = sim.fault.int(1, 5)
        plan.fail_with = sim.fault.pick([WorkerFailed("x"), MemoryError("x"), OSError(28, "No space left on device")])
    return plan, what


def run(sim, plan, fn):
    """fn() by simulated processes: (result, exception)"""
    def body(sc):
        procs.set_plan(plan)
        try:
            return fn(), None
        except Exception as e:
            if isinstance(e, (AssertionError,)) or e.__class__.__name__ == "Violation":
                raise
            return None, e
        finally:
            procs.set_plan(None)
    res = util.run_threads(sim, body, (), None, 40, 0.5, 400000)
    return res


def judge(sim, plan, what, exc, bad, out):
    """an exception is the consequence of an injected fault, and every injected fault has one"""
    hit = (what == "kill" and plan.kill_at <= plan.started or what == "fail" and plan.fail_at <= plan.started
           or what == "unpicklable" and bad)
    if exc is None:
        sim.check(not hit, "fault-hidden", lambda: f"{what}: a result was returned though a worker failed: {out}")
        for b in plan.bars:
            sim.check(b.n == b.total and b.closed, "progress", lambda: f"progress bar at {b.n} of {b.total}, closed {b.closed}")
        return True
    if not hit:
        raise exc
    if what == "kill":
        sim.check(isinstance(exc, cfp.BrokenProcessPool), "fault-changed", lambda: f"{what}: {exc!r}")
    elif what == "fail":
        sim.check(type(exc) is type(plan.fail_with), "fault-changed", lambda: f"{what}: {exc!r}")
    else:
        sim.check(isinstance(exc, (pickle.PicklingError, AttributeError, TypeError)), "fault-changed", lambda: f"{what}: {exc!r}")
    for b in plan.bars:
        sim.check(b.n <= b.total, "progress", lambda: f"progress bar at {b.n} of {b.total}")
    return False


def options(sim, what, P):
    g = sim.gen
    par = {}
    if g.flag(0.6):
        par[P.CORES if g.flag(0.7) else "cores"] = g.int(1, 5)
    if g.flag(0.7):
        par[P.SHOW_PROGRESS_BAR] = g.flag(0.6)
    bad = what == "unpicklable"
    if bad:
        sim.injected("parameter-not-sendable")
        par["callback"] = lambda x: x
    return par, bad


def done(sim, plan, *what):
    sim.cover(plan.order, plan.cpus, *what)
    sim.ev("order", plan.order)
    sim.nontrivial = plan.started > 1


def petri(sim):
    from pm4py.algo.conformance.alignments.petri_net import algorithm as A
    g = sim.gen
    (net, im, fm, ref), traces = case(sim, "net")
    vname = g.pick(c23.NV[:4])
    key = "act" if g.flag(0.15) else "concept:name"
    opts = {w: alref.best(ref, im, fm, w) for w in set(traces) | {()}}
    if opts[()] == -1 or None in opts.values():
        sim.probe("model without a run")
        return
    plan, what = environment(sim)
    par, bad = options(sim, what, A.Parameters)
    if key != "concept:name":
        par[A.Parameters.ACTIVITY_KEY] = key
    wide = g.flag(0.3)
    if wide:
        par[A.Parameters.PARAM_ALIGNMENT_RESULT_IS_SYNC_PROD_AWARE] = True
    if g.flag(0.15):
        par[A.Parameters.ENABLE_BEST_WORST_COST] = False
    bwc = par.get(A.Parameters.ENABLE_BEST_WORST_COST, True)
    dev = g.flag(0.2)
    if dev:
        # costs per transition: sent to the workers along with the net
        par[A.Parameters.PARAM_MODEL_COST_FUNCTION] = {t: 20000 if ref.label[t] is not None else 1 for t in ref.trans}
        par[A.Parameters.PARAM_SYNC_COST_FUNCTION] = {t: 0 for t in ref.trans}
    keep = dict(par)
    log = log_of(g, traces, key)
    before = gen.norm_net((net, im, fm)), repr([[dict(e) for e in t] for t in log]) if not hasattr(log, "columns") else log.to_csv()
    variant = A.Variants[vname]
    if dev:
        traces = traces[:1] if len(set(map(len, traces))) > 1 else traces
        log = c23.log_of(traces, key)
        par[A.Parameters.PARAM_TRACE_COST_FUNCTION] = keep[A.Parameters.PARAM_TRACE_COST_FUNCTION] = [10000] * len(traces[0])
    seq = A.apply(log, net, im, fm, variant=variant, parameters={k: v for k, v in keep.items()
                                                                if k != "callback" and k is not A.Parameters.SHOW_PROGRESS_BAR})
    res, exc = run(sim, plan, lambda: A.apply_multiprocessing(log, net, im, fm, parameters=par, variant=variant))
    sim.check(par == keep, "parameters-changed", lambda: f"{par} {keep}")
    if judge(sim, plan, what, exc, bad, res):
        sim.check(len(res) == len(traces), "alignments-missing", f"{len(res)} for {len(traces)} traces")
        for w, s, p in zip(traces, seq, res):
            c23.check_net_alignment(sim, p, ref, im, fm, w, None if dev else opts[w], opts[()], vname, wide=wide, fitness=bwc and not dev)
            sim.check(c23.dev(s["cost"]) == c23.dev(p["cost"]), "differs", lambda: f"{vname} {w}: cost {s['cost']} {p['cost']}")
            sim.check(s.get("fitness") == p.get("fitness"), "differs", lambda: f"{vname} {w}: fitness {s.get('fitness')} {p.get('fitness')}")
    if not hasattr(log, "columns") and not dev:
        sim.check((gen.norm_net((net, im, fm)), repr([[dict(e) for e in t] for t in log])) == before, "input-changed", vname)
    done(sim, plan, vname, traces, what)


def log_of(g, traces, key):
    """as an event log, or as a dataframe (traces without events have no rows)"""
    if g.flag(0.3) and all(traces):
        df = c23.log_of(traces, key, "df")
        return df
    return c23.log_of(traces, key)


def trees(sim):
    from pm4py.algo.conformance.alignments.process_tree.variants import search_graph_pt as S
    g = sim.gen
    tree, traces = case(sim, "tree")
    plan, what = environment(sim)
    par, bad = options(sim, what, S.Parameters)
    bad = False         # the parameters are not sent to the workers
    log = log_of(g, traces, "concept:name")
    seq = S.apply(log, tree)
    before = gen.norm_tree(tree, False)
    keep = dict(par)
    res, exc = run(sim, plan, lambda: S.apply_multiprocessing(log, tree, parameters=par))
    sim.check(par == keep, "parameters-changed", lambda: f"{par} {keep}")
    if judge(sim, plan, what, exc, bad, res):
        sim.check(len(res) == len(traces), "alignments-missing", f"{len(res)} for {len(traces)} traces")
        for w, s, p in zip(traces, seq, res):
            single = str(tree).count("*(") < 2
            c23.check_tree_alignment(sim, p, tree, w, alref.tree_best(tree, w) if single else None, None, "tree")
            if single:
                sim.check(s["cost"] == p["cost"] and s["fitness"] == p["fitness"], "differs",
                          lambda: f"{w} {tree}: {s['cost']} {s['fitness']}, parallel {p['cost']} {p['fitness']}")
    sim.check(gen.norm_tree(tree, False) == before, "input-changed", str(tree))
    done(sim, plan, str(tree), traces, what)


def values(sim):
    """fitness and precision through the simplified interface"""
    import pm4py
    from pm4py.algo.evaluation.precision.variants import align_etconformance as E
    g = sim.gen
    (net, im, fm, ref), traces = case(sim, "net")
    traces = [t for t in traces if t] or [("a",)]
    if alref.best(ref, im, fm, ()) in (-1, None):
        sim.probe("model without a run")
        return
    plan, what = environment(sim)
    if what == "unpicklable":
        what = "none"
    log = log_of(g, traces, "concept:name")
    which = g.pick(["precision", "precision", "fitness", "diagnostics"])
    if which == "precision":
        par, _ = options(sim, what, E.Parameters)
        seq = E.apply(log, net, im, fm, parameters={E.Parameters.MULTIPROCESSING: False, E.Parameters.SHOW_PROGRESS_BAR: False})
        res, exc = run(sim, plan, lambda: E.apply(log, net, im, fm, parameters={**par, E.Parameters.MULTIPROCESSING: True}))
        ok = judge(sim, plan, what, exc, False, res)
        if ok:
            sim.check(abs(seq - res) < 1e-12, "differs", lambda: f"precision {seq}, parallel {res} {traces}")
    elif which == "fitness":
        seq = pm4py.fitness_alignments(log, net, im, fm, multi_processing=False)
        res, exc = run(sim, plan, lambda: pm4py.fitness_alignments(log, net, im, fm, multi_processing=True))
        ok = judge(sim, plan, what, exc, False, res)
        if ok:
            sim.check(set(seq) == set(res) and all(abs(seq[k] - res[k]) < 2e-3 for k in seq), "differs",
                      lambda: f"fitness {seq}, parallel {res} {traces}")
    else:
        seq = pm4py.conformance_diagnostics_alignments(log, net, im, fm, multi_processing=False)
        res, exc = run(sim, plan, lambda: pm4py.conformance_diagnostics_alignments(log, net, im, fm, multi_processing=True))
        ok = judge(sim, plan, what, exc, False, res)
        if ok:
            sim.check([c23.dev(a["cost"]) for a in seq] == [c23.dev(a["cost"]) for a in res]
                      and [a["fitness"] for a in seq] == [a["fitness"] for a in res], "differs", lambda: f"diagnostics {traces}")
    done(sim, plan, which, traces, what)


SCENARIOS = [("petri", petri, 5), ("trees", trees, 4), ("values", values, 4)]
