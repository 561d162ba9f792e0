"""C01: a live stream delivers every accepted event exactly once to every observer,
and stop() returns only when that has happened."""
import collections
from asyncio import CancelledError

from dst import util

PROPERTY = "C01"
RUNS = {"quick": 2400, "thorough": 120000}
RULE = ("one run = one seeded schedule of producers, a stopper, late registrations and the stream's own threads over "
        "a generated workload; non-trivial when >= 2 events reached >= 1 observer and >= 3 forced thread switches")
DISTINCT = "hash of the sequence of thread switches, deliveries and results"
REAL = ["pm4py.streaming.stream.live_event_stream", "pm4py.streaming.stream.live_trace_stream",
        "pm4py.streaming.algo.interface", "concurrent.futures.ThreadPoolExecutor", "threading.Condition"]
STUB = ["lock primitive, OS thread scheduling, clock (simulated)", "observer (recording)"]
ASSUMPTIONS = ["CPython semantics of a lock acquire/release; preemption at bytecode boundaries of the stream code"]

PREF = (util.REPO + "/pm4py/streaming",)


def make_observer(sim, name, delays=0, fail=None):
    from pm4py.streaming.algo.interface import StreamingAlgorithm

    class Rec(StreamingAlgorithm):
        def __init__(self):
            super().__init__()
            self.seen = []
            self.name = name
            self.busy = 0
            self.overlap = False
            # most observers are a little slow, a few take minutes or hours for an event
            self.scale = sim.gen.weighted([(0.01, 6), (2.0, 2), (3600.0, 1)]) if delays else 0.01

        def _process(self, event):
            sc = sim.sched
            self.busy += 1
            if self.busy > 1:
                self.overlap = True
            if delays and sc is not None:
                d = sim.schedule.int(0, delays)
                if d:
                    sc.sleep(d * self.scale)
                    sim.injected("slow-observer" if self.scale < 1 else "stalled-observer")
            self.busy -= 1
            if fail is not None and fail(event):
                kind = sim.fault.weighted([(RuntimeError, 4), (KeyError, 1), (StopIteration, 1), (SystemExit, 2),
                                           (KeyboardInterrupt, 1), (CancelledError, 1), (GeneratorExit, 1)])
                sim.injected("observer-exception" if issubclass(kind, Exception) else "observer-exit")
                raise kind("observer failure")
            self.seen.append(event["i"])
            sim.ev("deliver", name, event["i"])

        def _current_result(self):
            return list(self.seen)
    return Rec()


def make_stream(sim):
    from pm4py.streaming.stream.live_event_stream import LiveEventStream, Parameters as P1
    from pm4py.streaming.stream.live_trace_stream import LiveTraceStream, Parameters as P2
    size = sim.gen.pick([2, 6, 1, 3])
    if sim.gen.flag(0.5):
        return LiveTraceStream(parameters={P2.THREAD_POOL_SIZE: size}), size
    return LiveEventStream(parameters={P1.THREAD_POOL_SIZE: size}), size


def check_exact(sim, o, expect, what):
    got = collections.Counter(o.seen)
    dup = sorted(i for i, n in got.items() if n > 1)
    sim.check(not dup, "duplicate-delivery", f"{what}: observer {o.name} received {dup} more than once")
    lost = [i for i in expect if i not in got]
    sim.check(not lost, "lost-event", f"{what}: observer {o.name} never received {lost} of {expect}")
    extra = [i for i in got if i not in set(expect)]
    sim.check(not extra, "phantom-event", f"{what}: observer {o.name} received {extra}, never accepted")


def finish(sim, obs, sc):
    n = sum(len(o.seen) for o in obs)
    sim.nontrivial = n >= 2 and sc.preemptions >= 3
    sim.cover([(o.name, tuple(o.seen)) for o in obs])


def producers_then_stop(sim):
    """events appended before and after start(); stop() after all appends returned"""
    def body(sc):
        st, size = make_stream(sim)
        obs = [make_observer(sim, f"O{k}", sim.gen.pick([0, 0, 3])) for k in range(sim.gen.int(1, 4))]
        for o in obs:
            st.register(o)
        nprod = sim.gen.int(1, 3)
        plan = [sim.gen.int(1, 6) for _ in range(nprod)]
        ids = iter(range(1000))
        todo = [[next(ids) for _ in range(n)] for n in plan]
        early = sim.gen.int(0, 2)
        pre = [next(ids) for _ in range(early)]
        for i in pre:
            st.append({"i": i})

        def prod(lst):
            def f():
                for i in lst:
                    if sim.gen.flag(0.2):
                        sc.sleep(0.05)
                    st.append({"i": i})
                    sim.ev("append", i)
            return f
        if sim.gen.flag(0.3):
            join = util.spawn(sc, [(f"P{k}", prod(l)) for k, l in enumerate(todo)])
            st.start()
        else:
            st.start()
            join = util.spawn(sc, [(f"P{k}", prod(l)) for k, l in enumerate(todo)])
        join()
        if sim.gen.flag(0.4):
            util.settle(sc)
        st.stop()
        sim.ev("stop returned")
        expect = pre + [i for l in todo for i in l]
        for o in obs:
            check_exact(sim, o, expect, "after stop()")
        util.settle(sc)
        for o in obs:
            check_exact(sim, o, expect, "after quiescence")
        # a finished stream accepts nothing more
        st.append({"i": 9999})
        util.settle(sc)
        for o in obs:
            check_exact(sim, o, expect, "after append on a finished stream")
        finish(sim, obs, sc)
    util.run_threads(sim, body, **util.swarm_sched(sim, PREF))


def stop_races_append(sim):
    """stop() concurrent with appends: an event either reaches everyone once or no one"""
    def body(sc):
        st, size = make_stream(sim)
        obs = [make_observer(sim, f"O{k}") for k in range(sim.gen.int(1, 3))]
        for o in obs:
            st.register(o)
        st.start()
        n = [sim.gen.int(1, 5) for _ in range(sim.gen.int(1, 3))]
        ids = iter(range(1000))
        todo = [[next(ids) for _ in range(k)] for k in n]
        before = []
        flag = {"stop": False}

        def prod(lst):
            def f():
                for i in lst:
                    st.append({"i": i})
                    if not flag["stop"]:
                        before.append(i)
            return f

        def stopper():
            for _ in range(sim.gen.int(0, 4)):
                sc.sleep(0.01)
            flag["stop"] = True
            st.stop()
            sim.injected("stop-races-append")
        join = util.spawn(sc, [(f"P{k}", prod(l)) for k, l in enumerate(todo)] + [("stopper", stopper)])
        join()
        util.settle(sc)
        # accepted before stop was called => delivered; the others all-or-nothing across observers
        sets = [frozenset(o.seen) for o in obs]
        for o in obs:
            dup = [i for i, c in collections.Counter(o.seen).items() if c > 1]
            sim.check(not dup, "duplicate-delivery", f"{dup}")
            lost = [i for i in before if i not in o.seen]
            sim.check(not lost, "lost-event", f"appended before stop() was called but never delivered to {o.name}: {lost}")
        sim.check(len(set(sets)) == 1, "partial-delivery", f"observers disagree: {[sorted(s) for s in sets]}")
        finish(sim, obs, sc)
    util.run_threads(sim, body, **util.swarm_sched(sim, PREF))


def membership(sim):
    """register/deregister while events flow: what falls entirely inside the membership is delivered once"""
    def body(sc):
        st, size = make_stream(sim)
        fixed = make_observer(sim, "F")
        late = make_observer(sim, "L")
        st.register(fixed)
        st.start()
        n1, n2, n3 = sim.gen.int(0, 4), sim.gen.int(1, 4), sim.gen.int(0, 4)
        a = list(range(n1))
        b = list(range(100, 100 + n2))
        c = list(range(200, 200 + n3))
        for i in a:
            st.append({"i": i})
        settled1 = sim.gen.flag(0.5)
        if settled1:
            util.settle(sc)
        st.register(late)
        for i in b:
            st.append({"i": i})
        util.settle(sc)
        util.drive(st.deregister(late))
        for i in c:
            st.append({"i": i})
        st.stop()
        util.settle(sc)
        check_exact(sim, fixed, a + b + c, "fixed observer")
        got = collections.Counter(late.seen)
        sim.check(all(v == 1 for v in got.values()), "duplicate-delivery", f"late observer: {late.seen}")
        sim.check(all(i in got for i in b), "lost-event", f"late observer missed {[i for i in b if i not in got]}")
        allowed = set(b) | (set() if settled1 else set(a))
        sim.check(set(got) <= allowed, "phantom-event",
                  f"late observer received {sorted(set(got) - allowed)} outside its membership")
        sim.injected("membership-change", 2)
        finish(sim, [fixed, late], sc)
    util.run_threads(sim, body, **util.swarm_sched(sim, PREF))


SCENARIOS = [("producers_then_stop", producers_then_stop, 3), ("stop_races_append", stop_races_append, 1),
             ("membership", membership, 1)]
