"""C05: streaming token-based replay gives every case the verdict of its own events, whatever the interleaving."""
import collections
import copy

from dst import util

PROPERTY = "C05"
RUNS = {"quick": 1600, "thorough": 80000}
RULE = ("one run = one generated net, 2-4 cases whose events arrive from 1-3 threads (directly or through a live "
        "stream) under preemption, with concurrent status queries, terminations and malformed events; each verdict is "
        "compared with an independent token replay; non-trivial when >= 2 cases and >= 4 events were replayed")
DISTINCT = "hash of thread switches, verdicts and query results"
REAL = ["pm4py.streaming.algo.conformance.tbr", "pm4py.streaming.algo.interface", "pm4py.objects.petri_net.semantics",
        "pm4py.streaming.util.dictio (thread_safe)", "pm4py.streaming.stream.live_event_stream (half of the runs)"]
STUB = ["lock primitive, OS thread scheduling, clock (simulated)"]
ASSUMPTIONS = ["nets without invisible transitions and with unique labels are compared token by token; nets with "
               "invisible transitions are state machines, where fitness is compared with language membership"]
PREF = (util.REPO + "/pm4py/streaming/algo", util.REPO + "/pm4py/streaming/util")
BAD = [{}, {"case:concept:name": "c0"}, {"concept:name": "t0"}, {"case:concept:name": None, "concept:name": "t0"}]


def make_net_visible(g):
    """random tau-free net with unique labels, weights, concurrency"""
    from pm4py.objects.petri_net.obj import PetriNet, Marking
    from pm4py.objects.petri_net.utils import petri_utils
    net = PetriNet("n")
    np_, nt = g.int(2, 5), g.int(2, 5)
    ps = [PetriNet.Place(f"p{i}") for i in range(np_)]
    for p in ps:
        net.places.add(p)
    desc = {}
    for i in range(nt):
        t = PetriNet.Transition(f"n{i}", f"t{i}")
        net.transitions.add(t)
        ins = {}
        outs = {}
        for p in g.sample(ps, g.weighted([(1, 5), (2, 3), (0, 1)])):
            ins[p] = g.weighted([(1, 6), (2, 1)])
        for p in g.sample(ps, g.weighted([(1, 5), (2, 3), (0, 1)])):
            outs[p] = g.weighted([(1, 6), (2, 1)])
        for p, w in ins.items():
            petri_utils.add_arc_from_to(p, t, net, weight=w)
        for p, w in outs.items():
            petri_utils.add_arc_from_to(t, p, net, weight=w)
        desc[f"t{i}"] = ({p.name: w for p, w in ins.items()}, {p.name: w for p, w in outs.items()})
    im = Marking({ps[0]: g.weighted([(1, 4), (2, 1)])})
    fm = Marking({ps[-1]: g.weighted([(1, 4), (2, 1)])})
    if g.flag(0.2):
        fm[ps[g.int(0, np_ - 1)]] += 1
    return net, im, fm, desc


class RefVisible:
    def __init__(self, im, fm, desc):
        self.m = collections.Counter({p.name: c for p, c in im.items()})
        self.fm = {p.name: c for p, c in fm.items()}
        self.desc = desc
        self.missing = 0

    def step(self, a):
        if a not in self.desc:
            return
        ins, outs = self.desc[a]
        for p, w in ins.items():
            if self.m[p] < w:
                self.missing += w - self.m[p]
                self.m[p] = w
            self.m[p] -= w
        for p, w in outs.items():
            self.m[p] += w

    def state(self):
        return (tuple(sorted((p, c) for p, c in self.m.items() if c > 0)), self.missing)

    def final(self):
        mi = self.missing + sum(max(0, c - self.m[p]) for p, c in self.fm.items())
        rem = sum(max(0, c - self.fm.get(p, 0)) for p, c in self.m.items())
        return {"missing": mi, "remaining": rem, "is_fit": mi == 0 and rem == 0}


def make_net_tau(g):
    """state machine with unique labels and invisible skips/loops; language known as an automaton"""
    from pm4py.objects.petri_net.obj import PetriNet, Marking
    from pm4py.objects.petri_net.utils import petri_utils
    net = PetriNet("n")
    n = g.int(2, 5)
    ps = [PetriNet.Place(f"p{i}") for i in range(n)]
    for p in ps:
        net.places.add(p)
    vis, tau = {}, []
    k = 0
    for i in range(n - 1):
        for _ in range(g.int(1, 2)):
            t = PetriNet.Transition(f"n{k}", f"t{k}")
            net.transitions.add(t)
            petri_utils.add_arc_from_to(ps[i], t, net)
            petri_utils.add_arc_from_to(t, ps[i + 1], net)
            vis[f"t{k}"] = (i, i + 1)
            k += 1
    for j in range(g.int(0, 4)):
        a, b = g.int(0, n - 2), 0
        b = g.int(a + 1, n - 1) if g.flag(0.7) else g.int(0, n - 1)
        if a == b:
            continue
        t = PetriNet.Transition(f"tau{j}", None)
        net.transitions.add(t)
        petri_utils.add_arc_from_to(ps[a], t, net)
        petri_utils.add_arc_from_to(t, ps[b], net)
        tau.append((a, b))
    return net, Marking({ps[0]: 1}), Marking({ps[-1]: 1}), (vis, tau, n)


def closure(tau, i):
    seen = {i}
    todo = [i]
    while todo:
        x = todo.pop()
        for a, b in tau:
            if a == x and b not in seen:
                seen.add(b)
                todo.append(b)
    return seen


class RefTau:
    """fit iff the trace is in the language (state machine, unique labels)"""

    def __init__(self, desc):
        self.vis, self.tau, self.n = desc
        self.cur = 0
        self.ok = True

    def step(self, a):
        if a not in self.vis:
            return
        s, t = self.vis[a]
        if s not in closure(self.tau, self.cur):
            self.ok = False
        self.cur = t

    def state(self):
        return self.ok

    def final(self):
        return {"is_fit": self.ok and (self.n - 1) in closure(self.tau, self.cur)}


def run(sim, kind):
    from pm4py.streaming.algo.conformance.tbr import algorithm as tbr
    from pm4py.objects.petri_net.obj import Marking
    g = sim.gen
    if kind == "visible":
        net, im, fm, desc = make_net_visible(g)
        labels = sorted(desc)
        new = lambda: RefVisible(im, fm, desc)  # noqa
    else:
        net, im, fm, desc = make_net_tau(g)
        labels = sorted(desc[0])
        new = lambda: RefTau(desc)  # noqa
    ncase = g.int(2, 4)
    cases = {}
    for c in range(ncase):
        tr = []
        if g.flag(0.7):       # mostly plausible traces: walk the net forward
            ref = new()
            for _ in range(g.int(1, 7)):
                if kind == "visible":
                    en = [a for a in labels if all(ref.m[p] >= w for p, w in desc[a][0].items())]
                else:
                    cl = closure(desc[1], ref.cur)
                    en = [a for a in labels if desc[0][a][0] in cl]
                if not en:
                    break
                a = g.pick(en)
                tr.append(a)
                ref.step(a)
            if tr and g.flag(0.25):
                tr.pop(g.int(0, len(tr) - 1))
        else:
            tr = [g.pick(labels + ["zzz"]) for _ in range(g.int(1, 6))]
        if tr:
            cases[f"c{c}"] = tr
    if not cases:
        cases["c0"] = [labels[0]]

    def body(sc):
        algo = tbr.apply(net, im, fm)
        via = g.flag(0.4)
        send = algo.receive
        if via:
            from pm4py.streaming.stream.live_event_stream import LiveEventStream
            st = LiveEventStream()
            st.register(algo)
            st.start()
            send = st.append
        started = collections.Counter()
        finished = collections.Counter()
        hist = {}
        for c, tr in cases.items():
            r = new()
            h = [r.state()]
            for a in tr:
                r.step(a)
                h.append(r.state())
            hist[c] = h
        results = {}
        term = set(g.subset(sorted(cases), 0.6))
        nthreads = g.int(1, 3)
        owner = {c: g.int(0, nthreads - 1) for c in cases}
        seqs = [[] for _ in range(nthreads)]
        for k in range(nthreads):
            queues = {c: list(tr) for c, tr in cases.items() if owner[c] == k}
            while queues:
                c = g.pick(sorted(queues))
                seqs[k].append((c, queues[c].pop(0), not queues[c]))
                if not queues[c]:
                    del queues[c]

        def feeder(k):
            def f():
                for c, a, last in seqs[k]:
                    if sim.fault.flag(0.1):
                        send(dict(sim.fault.pick(BAD)))
                        sim.injected("malformed-event")
                    started[c] += 1
                    send({"case:concept:name": c, "concept:name": a})
                    if not via:
                        finished[c] += 1
                    if not via and last and c in term:
                        results[c] = algo.terminate(c)
                        sim.ev("terminate", c, results[c] and sorted((x, y) for x, y in results[c].items() if x != "marking"))
                        sim.injected("terminate-mid-stream")
            return f

        def known_state(st):
            if st is None:
                return None
            if kind == "visible":
                return (tuple(sorted((p.name, n) for p, n in st["marking"].items() if n > 0)), st["missing"])
            return st["missing"] == 0

        def watcher():
            for _ in range(g.int(1, 6)):
                c = g.pick(sorted(cases))
                lo = finished[c]
                if g.flag(0.7):
                    st = algo.get_status(c)
                    hi = started[c]
                    sim.injected("concurrent-query")
                    if st is None:
                        # unknown case: nothing of it processed yet, or already terminated
                        continue
                    got = known_state(st)
                    sim.check(got in hist[c][lo:hi + 1], "status-not-a-prefix",
                              lambda: f"case {c} {cases[c]}: status {got}, possible {hist[c][lo:hi + 1]}")
                else:
                    los = dict(finished)
                    df = algo.get()
                    sim.injected("concurrent-query")
                    sim.check(df is not None, "query-failed", "get() returned None")
                    for row in df.to_dict("records"):
                        cc = row["case"]
                        pos = hist[cc][los.get(cc, 0):started[cc] + 1]
                        if kind == "visible":
                            sim.check(row["missing"] in [x[1] for x in pos], "status-not-a-prefix", f"{row} {pos}")
                        else:
                            sim.check((row["missing"] == 0) in pos, "status-not-a-prefix", f"{row} {pos}")
                if g.flag(0.3):
                    sc.yield_("think")
        join = util.spawn(sc, [(f"F{k}", feeder(k)) for k in range(nthreads)] + [("W", watcher)])
        join()
        if via:
            st.stop()
        for c in cases:
            if c in term and not via:
                continue
            st = algo.get_status(c)
            valid = [a for a in cases[c] if a in labels]
            if not valid:
                continue
            sim.check(st is not None and known_state(st) == hist[c][-1], "wrong-status",
                      lambda: f"case {c} {cases[c]}: {st} expected {hist[c][-1]}")
            results[c] = algo.terminate(c)
        for c, tr in cases.items():
            valid = [a for a in tr if a in labels]
            got = results.get(c)
            if not valid:
                sim.check(got is None, "wrong-verdict", f"{c}: {got}")
                continue
            r = new()
            for a in tr:
                r.step(a)
            exp = r.final()
            sim.check(got is not None, "wrong-verdict", f"case {c} {tr}: terminate returned None, expected {exp}")
            for f, v in exp.items():
                sim.check(got[f] == v, "wrong-verdict",
                          lambda: f"case {c} {tr}: {f}={got[f]}, expected {v} ({ {x: got[x] for x in got if x != 'marking'} })")
        algo.terminate_all()
        sim.check(len(algo.get()) == 0, "case-not-released", "cases left after terminate_all()")
        sim.nontrivial = len(cases) >= 2 and sum(map(len, cases.values())) >= 4
        sim.cover(kind, sorted((c, r and r["is_fit"]) for c, r in results.items()))
    kw = util.swarm_sched(sim, PREF)
    kw["mean_gap"] *= 6
    util.run_threads(sim, body, **kw)


SCENARIOS = [("visible", lambda s: run(s, "visible"), 2), ("invisible", lambda s: run(s, "tau"), 1)]
