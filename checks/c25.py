"""C25: concurrent callers on the same log, net, tree or OCEL get what they would get alone."""
from dst import catalogue as C, params, seams, util
from checks.c26 import state

PROPERTY = "C25"
RUNS = {"quick": 1000, "thorough": 40000}
RULE = ("one run = 2 or 3 client threads, each doing 1 or 2 calls of the catalogue on the same objects (and, in a third of the runs, "
        "with the same dictionary of parameters), preempted at seeded lines of pm4py; non-trivial when a call was preempted")
DISTINCT = "hash of the input, the calls and the points of preemption"
REAL = ["the public functions of pm4py.stats, discovery, conformance, filtering, convert, ml, org, ocel, llm, utils, analysis",
        "algorithm.apply of the main algorithms with a shared dictionary of parameters"]
STUB = ["thread scheduling: one thread at a time, switched at seeded lines of pm4py", "identity hashes and uuids: seeded per call"]
ASSUMPTIONS = ["preemption at lines of pm4py; calls into pandas, numpy, networkx and lxml are atomic",
               "functions documented to enrich the given object in place are left out; so are those that draw random numbers",
               "decision mining is left out: its result depends on which of several optimal alignments is found"]
LEFT_OUT = {"decision mining"}
PREFIX = (util.REPO + "/pm4py/",)


def run(sim, calls, E, seed, want, text):
    """calls: per client, a list of (name, call); all on E"""
    g = sim.gen
    before = state(E)
    got = {}
    pre = []

    def client(i):
        def body():
            for j, (name, call) in enumerate(calls[i]):
                seams.set_thread_seed(seed + 1)
                got[i, j] = C.outcome(call, E)
        return body

    def main(sc):
        util.spawn(sc, [(f"client{i}", client(i)) for i in range(len(calls))])()
    gap = sim.schedule.pick([200, 60, 600, 20, 2000])
    util.run_threads(sim, main, prefixes=PREFIX, granularity="line", mean_gap=gap, bias=sim.schedule.pick([0.5, 0.85]), max_steps=3_000_000)
    for (i, j), r in sorted(got.items()):
        name = calls[i][j][0]
        sim.check(r == want[i, j], "result-depends-on-concurrent-callers",
                  lambda: f"{name} ({text}), meanwhile {[[n for n, _ in c] for k, c in enumerate(calls) if k != i]}: {C.diff(want[i, j], r)}")
        sim.ev(name, str(r)[:60])
        if isinstance(r, tuple) and r and r[0] == "raised":
            sim.probe("operation raised")
    now = state(E)
    sim.check(now == before, "input-changed", lambda: f"by {[[n for n, _ in c] for c in calls]}: {C.diff(before, now)}")
    sim.injected("thread-switch", sim.probes.get("preempt-in-code", 0) if hasattr(sim, "probes") else 1)
    sim.nontrivial = True


def functions(sim):
    g = sim.gen
    d = C.describe(g, ncase=(1, 3))
    seed = g.int(1, 10 ** 6)
    ops = [o for o in C.ops() if not o.mut and not o.rnd and o.name not in LEFT_OUT and (not o.slow or g.flag(0.05))]
    base = g.sample(ops, g.pick([1, 2, 3]))
    calls, want = [], {}
    for i in range(g.pick([2, 2, 3])):
        c = []
        for j in range(g.pick([1, 1, 2])):
            o = g.pick(base)
            call = o.make(g, d)
            E = C.fresh(d, seed)
            C.reseed(seed + 1)
            want[i, j] = C.outcome(call, E)
            c.append((o.name, call))
        calls.append(c)
    E = C.fresh(d, seed)
    sim.cover(d["cases"], [[n for n, _ in c] for c in calls])
    run(sim, calls, E, seed, want, "same objects")


def parameters(sim):
    g = sim.gen
    d = C.describe(g, ocel=False, ncase=(1, 3))
    seed = g.int(1, 10 ** 6)
    P = params.draw(g)
    ops = params.ops()
    base = g.sample(sorted(n for n in ops if n not in ("playout", "playout_tree", "tree_generator", "clustering")), g.pick([1, 2, 3]))
    calls, want = [], {}
    for i in range(2):
        n = g.pick(base)
        E = C.fresh(d, seed)
        C.reseed(seed + 1)
        want[i, 0] = C.outcome(lambda E: ops[n](E, dict(P)), E)
        calls.append([(n, lambda E, n=n: ops[n](E, P))])
    E = C.fresh(d, seed)
    sim.cover(d["cases"], [[n for n, _ in c] for c in calls])
    run(sim, calls, E, seed, want, "same dictionary of parameters")


SCENARIOS = [("functions", functions, 3), ("parameters", parameters, 1)]
