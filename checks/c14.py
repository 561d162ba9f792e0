"""C14/C15: Monte Carlo simulation under any schedule, clock and draw."""
import datetime

from dst import util

PROPERTY = "C14"
RUNS = {"quick": 3200, "thorough": 60000}
RULE = ("one run = a Monte Carlo simulation of a generated sound net (choices, loops, concurrency, visible or invisible "
        "transitions) with seeded durations, resources per place, arrival rate and schedule of the simulation threads, with "
        "clock jumps and time-outs; non-trivial when >= 2 cases and >= 4 events were simulated")
DISTINCT = "hash of the thread switches, the traces and the intervals"
REAL = ["pm4py.algo.simulation.montecarlo", "pm4py.objects.petri_net.semantics", "pm4py.objects.stochastic_petri.utils",
        "pm4py.objects.random_variables (half of the runs)", "numpy, intervaltree"]
STUB = ["lock primitive, OS thread scheduling, clock, sleeps (simulated)", "durations drawn by the harness (half of the runs)"]
ASSUMPTIONS = ["the nets are sound, without duplicate labels and self-loops, as the simulation requires"]
PREF = (util.REPO + "/pm4py/algo/simulation/montecarlo", "/opt/venv/lib/python3.12/site-packages/intervaltree")
START = 1000000


def build(g, allvis=False):
    """a sound workflow net from a random block structure; at most one token per place"""
    from pm4py.objects.petri_net.obj import PetriNet, Marking
    from pm4py.objects.petri_net.utils import petri_utils as pu
    net = PetriNet("n")
    cnt = [0, 0]
    net.properties["dst-simple"] = True

    def place():
        cnt[0] += 1
        p = PetriNet.Place(f"p{cnt[0]}")
        net.places.add(p)
        return p

    def trans(visible=True):
        cnt[1] += 1
        t = PetriNet.Transition(f"t{cnt[1]}", f"a{cnt[1]}" if visible or allvis else None)
        net.transitions.add(t)
        return t

    def vis():
        return g.flag(0.85)

    def block(a, b, depth):
        k = g.weighted([("task", 3), ("seq", 4), ("xor", 2), ("and", 2), ("loop", 1)]) if depth else "task"
        if k in ("and", "loop"):
            net.properties["dst-simple"] = False
        if k == "task":
            t = trans(vis())
            pu.add_arc_from_to(a, t, net)
            pu.add_arc_from_to(t, b, net)
        elif k == "seq":
            m = place()
            block(a, m, depth - 1)
            block(m, b, depth - 1)
        elif k == "xor":
            for _ in range(2):
                block(a, b, depth - 1)
        elif k == "and":
            s, j = trans(g.flag(0.5)), trans(g.flag(0.5))
            pu.add_arc_from_to(a, s, net)
            pu.add_arc_from_to(j, b, net)
            for _ in range(g.int(2, 3)):
                x, y = place(), place()
                pu.add_arc_from_to(s, x, net)
                pu.add_arc_from_to(y, j, net)
                block(x, y, depth - 1)
        else:
            i, x, y, o = trans(vis()), place(), place(), trans(vis())
            pu.add_arc_from_to(a, i, net)
            pu.add_arc_from_to(i, x, net)
            block(x, y, depth - 1)
            r = trans(vis())
            pu.add_arc_from_to(y, r, net)
            pu.add_arc_from_to(r, x, net)
            pu.add_arc_from_to(y, o, net)
            pu.add_arc_from_to(o, b, net)

    src, snk = place(), place()
    block(src, snk, g.int(1, 3))
    return net, Marking({src: 1}), Marking({snk: 1}), src, snk


class Draw:
    def __init__(self, sim, style):
        self.s, self.style = sim.rand, style

    def get_weight(self):
        return 1.0

    def get_value(self):
        d = self.s.pick(self.style)
        return d * self.s.int(1, 10) if d not in (0, -1) else float(d) if d == 0 or self.s.flag(0.5) else 5.0


def simulate(sim, judge):
    import numpy  # noqa
    import pm4py
    from pm4py.algo.simulation.montecarlo import algorithm as mc
    from pm4py.algo.simulation.montecarlo.variants import petri_semaph_fifo as v
    from pm4py.objects.random_variables.exponential.random_variable import Exponential
    from pm4py.objects.random_variables.uniform.random_variable import Uniform
    from pm4py.objects.random_variables.random_variable import RandomVariable
    P = v.Parameters
    g = sim.gen
    allvis = g.flag(0.4)
    net, im, fm, src, snk = build(g, allvis)
    n = g.int(1, 7)
    ratio = g.pick([1.0, 100.0, 0.5, 5000.0])
    scale = g.pick([864000, 864000, 100.0, 1.0, 10 ** 9])
    dfl = g.pick([1, 1, 2, 3])
    res = {p: g.int(1, 3) for p in g.subset(sorted(net.places, key=lambda p: p.name), 0.3)}
    style = g.pick([[10], [10, 1000], [0], [10, 0], [-1, 100]])
    trs = sorted(net.transitions, key=lambda t: t.name)
    smap = {}
    for t in trs:
        if t.label is None and g.flag(0.8):
            continue
        if g.flag(0.5):
            smap[t] = Draw(sim, style)
        else:
            rv = RandomVariable()
            rv.random_variable = g.pick([Exponential(scale=g.pick([1, 500])), Uniform(loc=g.pick([0, 10]), scale=g.pick([1, 200]))])
            rv.set_weight(g.pick([0.5, 1.0]))
            smap[t] = rv
    tmo = g.weighted([(3000.0, 5), (60.0, 2), (0.5, 1)])
    diag = g.flag(0.3)
    par = {P.PARAM_NUM_SIMULATIONS: n, P.PARAM_ENABLE_DIAGNOSTICS: diag, P.PARAM_DIAGN_INTERVAL: g.pick([32.0, 3.0, 500.0]),
           P.PARAM_CASE_ARRIVAL_RATIO: ratio, P.PARAM_PROVIDED_SMAP: smap, P.PARAM_MAP_RESOURCES_PER_PLACE: res,
           P.PARAM_DEFAULT_NUM_RESOURCES_PER_PLACE: dfl, P.PARAM_SMALL_SCALE_FACTOR: scale,
           P.PARAM_MAX_THREAD_EXECUTION_TIME: tmo}
    kw = util.swarm_sched(sim, PREF)
    kw["mean_gap"] *= 3
    kw["max_steps"] = 400000
    jumps = {}
    if sim.fault.flag(0.3):
        for _ in range(sim.fault.int(1, 3)):
            jumps[sim.fault.int(1, 30)] = sim.fault.pick([3600.0, -3600.0, 59.0, -1.0, 10 ** 8])

    def body(sc):
        if jumps:
            def jump(s):
                j = jumps.get(s.clock_reads)
                if j:
                    s.skew += j
                    sim.injected("clock-jump" if j > 0 else "clock-backwards")
            sc.on_clock = jump
        before = set(sc.threads)
        r = mc.apply(pm4py.objects.log.obj.EventLog(), net, im, fm, parameters=par)
        alive = [t for t in sc.threads if not t.done and t not in before]
        if alive:           # the diagnostics stop at their next tick
            util.settle(sc, 1100.0)
            alive = [t.name for t in sc.threads if not t.done and t not in before]
        sim.check(not alive, "thread-left", f"{alive}")
        return r

    log, out = util.run_threads(sim, body, **kw)
    deaths = [e for _, e in sim.__dict__.get("thread_deaths", ())]
    sim.check(not deaths, "simulation-thread-died", lambda: f"{type(deaths[0]).__name__}: {deaths[0]}")
    if len(log) < n:
        sim.injected("time-out", n - len(log))
    sim.nontrivial = len(log) >= 2 and sum(map(len, log)) >= 4
    o = {k: sorted((round(i.begin, 6), round(i.end, 6)) for i in tree) for k, tree in out[v.Outputs.OUTPUT_PLACES_INTERVAL_TREES.value].items()}
    sim.ev("cases", len(log), "of", n, "ratio", ratio, "scale", scale, "default", dfl, "timeout", tmo, "jumps", sorted(jumps.items()))
    for t in log:
        sim.ev([(e["concept:name"], e["time:timestamp"].timestamp()) for e in t])
    sim.cover(n, dfl, [[(e["concept:name"], e["time:timestamp"]) for e in t] for t in log], sorted((p.name, x) for p, x in o.items()))
    cfg = dict(net=net, im=im, fm=fm, src=src, snk=snk, n=n, ratio=ratio, res=res, dfl=dfl, allvis=allvis, tmo=tmo, scale=scale,
               out=out, log=log, occ=o, V=v, jumps=jumps)
    judge(sim, cfg)


def overlap(iv):
    pts = sorted([(b, 1) for b, e in iv] + [(e, -1) for b, e in iv], key=lambda x: (x[0], x[1]))
    m = c = 0
    for _, d in pts:
        c += d
        m = max(m, c)
    return m


def judge14(sim, c):
    for p, iv in c["occ"].items():
        cap = c["res"].get(p, c["dfl"])
        sim.check(overlap(iv) <= cap, "too-many-cases-in-a-place",
                  lambda: f"place {p.name} with {cap} resources: occupied {iv}")
        sim.check(all(b < e and b >= START - 1e-6 for b, e in iv), "impossible-interval", lambda: f"{p.name}: {iv}")
        s = getattr(p, "semaphore", None)
        if s is not None and hasattr(s, "_value"):
            sim.check(s._value == cap, "resources-not-conserved", f"place {p.name}: {s._value} resources left of {cap}")
    for name, tree in c["out"][c["V"].Outputs.OUTPUT_TRANSITIONS_INTERVAL_TREES.value].items():
        sim.check(all(i.begin < i.end and i.begin >= START for i in tree), "impossible-interval", f"{name}")
    if not c["allvis"] or len(c["log"]) < c["n"]:
        return
    # occupation of every place, from the traces alone
    lab = {t.label: t for t in c["net"].transitions}
    want = {p: [] for p in c["net"].places}
    for i, tr in enumerate(c["log"]):
        inside = {}
        for e in tr:
            t, now = lab[e["concept:name"]], e["time:timestamp"].timestamp()
            for a in t.in_arcs:
                if a.source is not c["src"]:
                    want[a.source].append((inside.pop(a.source), now))
            for a in t.out_arcs:
                inside[a.target] = now
    for p, iv in want.items():
        if p is c["src"]:
            continue
        exp = sorted({x for x in iv if x[1] - x[0] > 2e-5})
        got = [x for x in c["occ"][p] if x[1] - x[0] > 2e-5]
        sim.check(len(exp) >= len(got) and all(any(abs(a[0] - b[0]) < 1e-5 and abs(a[1] - b[1]) < 1e-5 for b in got) for a in exp),
                  "wrong-occupation", lambda: f"place {p.name}: reported {got}, from the traces {exp}")
        sim.probe("occupation-recomputed")


SCENARIOS = [("resources", lambda s: simulate(s, judge14), 1)]
