"""C02: every observer of a live stream sees the events in the order in which they were accepted."""
from dst import util
from checks.c01 import make_observer, make_stream, PREF

PROPERTY = "C02"
RUNS = {"quick": 2000, "thorough": 100000}
RULE = ("one run = one seeded schedule of 1-3 producers and 1-4 observers (some slow) over the stream's own delivery "
        "thread and worker pool; non-trivial when an observer received >= 3 events and >= 3 forced thread switches")
DISTINCT = "hash of the sequence of thread switches and of the per-observer delivery orders"
REAL = ["pm4py.streaming.stream.live_event_stream", "pm4py.streaming.stream.live_trace_stream",
        "pm4py.streaming.algo.interface", "concurrent.futures.ThreadPoolExecutor", "threading.Condition"]
STUB = ["lock primitive, OS thread scheduling, clock (simulated)", "observer (recording)"]
ASSUMPTIONS = ["append calls that overlap in time may be accepted in either order"]


def order(sim):
    def body(sc):
        st, size = make_stream(sim)
        obs = [make_observer(sim, f"O{k}", sim.gen.pick([0, 4, 2])) for k in range(sim.gen.int(1, 4))]
        for o in obs:
            st.register(o)
        ids = iter(range(1000))
        pre = [next(ids) for _ in range(sim.gen.int(0, 3))]
        hist = []     # (id, invoke, return) on the simulator's own sequence numbers
        seq = iter(range(100000))

        def app(i):
            a = next(seq)
            st.append({"i": i})
            hist.append((i, a, next(seq)))
        for i in pre:
            app(i)
        todo = [[next(ids) for _ in range(sim.gen.int(2, 6))] for _ in range(sim.gen.int(1, 3))]

        def prod(lst):
            def f():
                for i in lst:
                    if sim.gen.flag(0.15):
                        sc.sleep(0.02)
                    app(i)
            return f
        st.start()
        join = util.spawn(sc, [(f"P{k}", prod(l)) for k, l in enumerate(todo)])
        join()
        st.stop()
        util.settle(sc)
        for o in obs:
            sim.check(not o.overlap, "overlapping-delivery", f"two events processed at once by {o.name}")
            pos = {i: k for k, i in enumerate(o.seen)}
            for i, a, r in hist:
                for j, b, _ in hist:
                    if r < b and i in pos and j in pos:
                        sim.check(pos[i] < pos[j], "reordered",
                                  f"observer {o.name} saw {o.seen}: {j} before {i}, accepted earlier")
        firsts = obs[0].seen
        for o in obs[1:]:
            sim.check(o.seen == firsts, "disagreeing-order", f"{obs[0].name} saw {firsts}, {o.name} saw {o.seen}")
        sim.nontrivial = len(firsts) >= 3 and sc.preemptions >= 3
        sim.cover([tuple(o.seen) for o in obs])
    util.run_threads(sim, body, **util.swarm_sched(sim, PREF))


def shared(sim):
    """one observer registered to several streams, queried and fed directly while they deliver: the events of each
    stream arrive in order, and the observer is never inside two events at the same time"""
    def body(sc):
        sts = [make_stream(sim)[0] for _ in range(sim.gen.int(2, 3))]
        obs = [make_observer(sim, f"O{k}", sim.gen.pick([0, 4, 2])) for k in range(sim.gen.int(1, 3))]
        for s in sts:
            for o in obs:
                s.register(o)
            s.start()
        n = [sim.gen.int(1, 5) for _ in sts]

        def prod(k):
            def f():
                for i in range(n[k]):
                    if sim.gen.flag(0.15):
                        sc.sleep(0.02)
                    sts[k].append({"i": 100 * k + i})
            return f

        def direct(o):
            def f():
                for i in range(2):
                    o.receive({"i": 9000 + i})
                    sc.sleep(0.01)
            return f

        def query(o):
            def f():
                for _ in range(3):
                    got = o.get()
                    sim.check(got is not None and got == sorted(got, key=lambda i: o.seen.index(i)), "torn-query", str(got))
                    sc.sleep(0.5)
            return f
        cl = [(f"P{k}", prod(k)) for k in range(len(sts))]
        extra = sim.gen.flag(0.4)
        for o in obs:
            if extra:
                cl.append(("D" + o.name, direct(o)))
            if sim.gen.flag(0.4):
                cl.append(("Q" + o.name, query(o)))
        util.spawn(sc, cl)()
        for s in sts:
            s.stop()
        util.settle(sc)
        sim.injected("shared-observer", len(obs))
        for o in obs:
            sim.check(not o.overlap, "overlapping-delivery", f"two events processed at once by {o.name}")
            for k in range(len(sts)):
                mine = [i for i in o.seen if i // 100 == k]
                sim.check(mine == [100 * k + i for i in range(n[k])], "reordered",
                          f"observer {o.name} saw {mine} of stream {k}")
        sim.nontrivial = sum(n) >= 3 and sc.preemptions >= 3
        sim.cover([tuple(o.seen) for o in obs])
    util.run_threads(sim, body, **util.swarm_sched(sim, PREF))


SCENARIOS = [("order", order, 3), ("shared", shared, 1)]
