"""C26: a call leaves its inputs and parameters as they were and does not influence later calls, even when it fails half-way."""
import sys

from dst import catalogue as C, params, util

PROPERTY = "C26"
RUNS = {"quick": 450, "thorough": 20000}
RULE = ("one run = a history of 8 calls on the same log, DataFrame, net, tree, DFG and OCEL, some of them interrupted at a seeded line of "
        "pm4py by an exception; or of 5 calls with the same dictionary of parameters; each result is compared with the same call on "
        "fresh copies; non-trivial when a call follows another one on the same input")
DISTINCT = "hash of the input, the sequence of calls, the points of interruption and the results"
REAL = ["the public functions of pm4py.stats, discovery, conformance, filtering, convert, ml, org, ocel, llm, sim, utils, analysis",
        "algorithm.apply of the main algorithms with their parameters"]
STUB = ["random numbers, uuids and identity hashes: seeded before every call", "the exception of a failing allocation or interrupt: raised at a seeded line"]
ASSUMPTIONS = ["an interrupted call may return anything or raise; only the later calls and the inputs are checked"]


class Interrupt:
    """raises exc at the n-th line executed in pm4py (this thread)"""

    def __init__(self, exc, n):
        self.exc, self.n, self.fired = exc, n, None

    def __enter__(self):
        pre = util.REPO + "/pm4py/"

        def local(frame, ev, arg):
            if ev == "line" and self.fired is None:
                self.n -= 1
                if self.n <= 0:
                    self.fired = (frame.f_code.co_filename[len(pre):], frame.f_lineno)
                    raise self.exc("injected")
            return local

        def glob(frame, ev, arg):
            return local if self.fired is None and frame.f_code.co_filename.startswith(pre) else None
        self.old = sys.gettrace()
        sys.settrace(glob)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)


def state(E):
    df = E.df
    out = [(k, C.norm(v)) for k, v in E.inputs().items()]
    out.append(("df index", list(df.index), [str(t) for t in df.dtypes], sorted(map(str, df.attrs))))
    out.append(("log properties", C.norm(E.log.properties), C.norm(E.log.extensions), C.norm(E.log.classifiers), C.norm(E.log.omni_present)))
    out.append(("tree", tree_shape(E.tree)))
    out.append(("markings", sorted(p.name for p in E.im), sorted(p.name for p in E.fm), sorted(p.name for p in E.net.places),
                sorted((t.name, str(t.label), sorted(map(str, t.properties))) for t in E.net.transitions)))
    if E.ocel is not None:
        out.append(("ocel columns", [str(t) for f in (E.ocel.events, E.ocel.objects, E.ocel.relations) for t in f.dtypes]))
    return out


def tree_shape(t):
    """operators, labels and whether each child knows its parent"""
    return (type(t).__name__, str(t.operator), t.label, [(c.parent is t, tree_shape(c)) for c in t.children])


def interrupted(sim, call, E):
    g = sim.gen
    exc = g.pick([KeyboardInterrupt, MemoryError])
    n = g.pick([10, 40, 150, 600, 2500])
    it = Interrupt(exc, g.int(1, n))
    try:
        with it:
            call(E)
    except BaseException as e:
        if isinstance(e, (SystemExit,)) or type(e).__name__ == "StepLimit":
            raise
    if it.fired:
        sim.injected("interrupt" if exc is KeyboardInterrupt else "failing-allocation")
    return it.fired


def history(sim):
    g = sim.gen
    d = C.describe(g)
    seed = g.int(1, 10 ** 6)
    ops = [o for o in C.ops() if not o.mut and (not o.slow or g.flag(0.15))]
    names = []
    base = g.sample(ops, g.pick([2, 4, 8]))
    calls = [(o, o.make(g, d)) for o in (g.pick(base) for _ in range(8))]
    faults = [g.flag(0.25) for _ in calls]
    fresh = []
    for (o, call), f in zip(calls, faults):
        E = C.fresh(d, seed)
        C.reseed(seed + 1)
        fresh.append(None if f else C.outcome(call, E))
    E = C.fresh(d, seed)
    before = state(E)
    for i, ((o, call), f) in enumerate(zip(calls, faults)):
        C.reseed(seed + 1)
        where = None
        if f:
            where = interrupted(sim, call, E)
            names.append((o.name, where))
        else:
            got = C.outcome(call, E)
            names.append(o.name)
            sim.check(got == fresh[i], "result-depends-on-earlier-calls", lambda: f"call {i} {o.name} after {names[:-1]}: {C.diff(fresh[i], got)}")
            if isinstance(got, tuple) and got and got[0] == "raised":
                sim.probe("operation raised")
            sim.ev(o.name, str(got)[:60])
        now = state(E)
        sim.check(now == before, "input-changed" if where is None else "input-changed-by-a-failed-call",
                  lambda: f"by {o.name} ({where}): {C.diff(before, now)}")
    sim.cover(d["cases"], str(names))
    sim.nontrivial = True


def parameters(sim):
    g = sim.gen
    d1, d2 = C.describe(g, ocel=False), C.describe(g, ocel=False)
    seed = g.int(1, 10 ** 6)
    P = params.draw(g)
    ops = params.ops()
    base = g.sample(sorted(ops), g.pick([1, 2, 4]))
    calls = [(g.pick(base), g.pick([d1, d2])) for _ in range(5)]
    want = []
    for n, d in calls:
        E = C.fresh(d, seed)
        C.reseed(seed + 1)
        want.append(C.outcome(lambda E: ops[n](E, dict(P)), E))
    shared = dict(P)
    envs = {}
    for i, (n, d) in enumerate(calls):
        if id(d) not in envs:
            E = C.fresh(d, seed)
            envs[id(d)] = (E, state(E))
        E, before = envs[id(d)]
        C.reseed(seed + 1)
        got = C.outcome(lambda E: ops[n](E, shared), E)
        sim.check(got == want[i], "result-depends-on-the-parameters-of-earlier-calls",
                  lambda: f"call {i} {n} after {[c[0] for c in calls[:i]]} with the same dictionary: {C.diff(want[i], got)}")
        if isinstance(got, tuple) and got and got[0] == "raised":
            sim.probe(f"{n} raised")
        now = state(E)
        sim.check(now == before, "input-changed", lambda: f"by algorithm {n}: {C.diff(before, now)}")
        sim.ev(n, str(got)[:60])
    sim.cover(d1["cases"], d2["cases"], str(calls)[:50], [c[0] for c in calls])
    sim.nontrivial = True


SCENARIOS = [("history", history, 3), ("parameters", parameters, 1)]
