"""C03: a started live stream never blocks: whatever mix of concurrent appends, (de)registrations and stops,
every call returns, the delivery thread ends after stop, failing observers hurt nobody else."""
import collections

from dst import util
from checks.c01 import make_observer, make_stream, PREF

PROPERTY = "C03"
RUNS = {"quick": 2400, "thorough": 100000}
RULE = ("one run = one seeded schedule of client threads issuing random lifecycle operations (append, register, "
        "deregister, state, one or more stops) against a started stream with normal, slow, failing and re-entrant "
        "observers; non-trivial when >= 2 client threads ran and >= 3 forced thread switches")
DISTINCT = "hash of the sequence of thread switches and of the deliveries"
REAL = ["pm4py.streaming.stream.live_event_stream", "pm4py.streaming.stream.live_trace_stream",
        "pm4py.streaming.algo.interface", "concurrent.futures.ThreadPoolExecutor", "threading.Condition"]
STUB = ["lock primitive, OS thread scheduling, clock (simulated)", "observer (recording, raising or re-entrant)"]
ASSUMPTIONS = ["an observer does not stop the stream that is calling it",
               "a stream is started once and not restarted after it was stopped"]


def threads_left(sc):
    return [t.name for t in sc.threads if not t.done and t.pthread is not None]


def lifecycle(sim):
    def body(sc):
        st, size = make_stream(sim)
        obs = [make_observer(sim, f"O{k}", sim.gen.pick([0, 0, 3])) for k in range(sim.gen.int(1, 3))]
        st.register(obs[0])
        st.start()
        ids = iter(range(1000))
        nstop = sim.gen.weighted([(1, 3), (2, 4), (3, 2)])
        if nstop > 1:
            sim.injected("concurrent-stops", nstop - 1)

        def client(ops):
            def f():
                for op, arg in ops:
                    if op == "append":
                        st.append({"i": arg})
                    elif op == "register":
                        st.register(obs[arg])
                    elif op == "state":
                        assert st.state is not None
                    elif op == "sleep":
                        sc.sleep(0.01 * arg)
                    elif op == "stop":
                        st.stop()
                    elif op == "roundtrip":
                        o = make_observer(sim, f"x{arg}")
                        st.register(o)
                        util.drive(st.deregister(o))
            return f
        clients = []
        for k in range(sim.gen.int(1, 3)):
            ops = []
            for _ in range(sim.gen.int(1, 6)):
                op = sim.gen.weighted([("append", 6), ("register", 1), ("state", 1), ("sleep", 1), ("roundtrip", 1)])
                arg = {"append": lambda: next(ids), "register": lambda: sim.gen.int(0, len(obs) - 1),
                       "sleep": lambda: sim.gen.int(1, 5), "roundtrip": lambda: next(ids)}.get(op, lambda: None)()
                ops.append((op, arg))
            clients.append((f"C{k}", client(ops)))
        for k in range(nstop):
            clients.append((f"S{k}", client(
                [("sleep", sim.gen.int(0, 3))] * sim.gen.int(0, 1) + [("append", next(ids))] * sim.gen.int(0, 1)
                + [("stop", None)])))
        join = util.spawn(sc, clients)
        join()        # a call that never returns shows up as a deadlock here
        util.settle(sc)
        left = threads_left(sc)
        sim.check(not left, "thread-leak", f"after stop() and quiescence these stream threads never end: {left}")
        for o in obs:
            dup = [i for i, c in collections.Counter(o.seen).items() if c > 1]
            sim.check(not dup, "duplicate-delivery", f"{dup}")
        # calls on a finished stream still return
        st.append({"i": 5000})
        st.register(obs[-1])
        util.drive(st.deregister(obs[-1]))
        st.stop()
        util.settle(sc)
        sim.check(all(5000 not in o.seen for o in obs), "delivery-after-stop", "event accepted by a finished stream")
        sim.nontrivial = len(clients) >= 2 and sc.preemptions >= 3
        sim.cover([tuple(o.seen) for o in obs], nstop)
    util.run_threads(sim, body, **util.swarm_sched(sim, PREF))


def failing_observers(sim):
    """an observer that raises loses only its own event; malformed events included"""
    def body(sc):
        st, size = make_stream(sim)
        bad = set(sim.gen.subset(range(12), 0.4))
        allbad = sim.gen.flag(0.2)
        good = make_observer(sim, "good")
        failing = make_observer(sim, "failing", 0, (lambda e: True) if allbad else (lambda e: e["i"] in bad))
        second = make_observer(sim, "second", sim.gen.pick([0, 3]))
        for o in sim.gen.shuffle([good, failing, second]):
            st.register(o)
        st.start()
        n = sim.gen.int(2, 10)
        malformed = [{"no": 1}, None, 17, {"i": []}, "x"]
        acc = []
        for i in range(n):
            if sim.fault.flag(0.2):
                st.append(malformed[sim.fault.int(0, 2)])
                sim.injected("malformed-event")
            st.append({"i": i})
            acc.append(i)
        st.stop()
        util.settle(sc)
        left = threads_left(sc)
        sim.check(not left, "thread-leak", f"{left}")
        for o in (good, second):
            miss = [i for i in acc if i not in o.seen]
            sim.check(not miss, "failure-not-isolated", f"{o.name} lost {miss} because another observer failed")
        miss = [i for i in acc if i not in failing.seen and not (allbad or i in bad)]
        sim.check(not miss, "failure-not-isolated", f"failing observer lost later healthy events {miss}")
        got = good.get()
        sim.check(got == good.seen, "query-failed", f"{got}")
        sim.nontrivial = len(acc) >= 2 and (sim.faults.get("observer-exception", 0) > 0
                                            or sim.faults.get("malformed-event", 0) > 0)
        sim.cover(tuple(good.seen), tuple(failing.seen))
    util.run_threads(sim, body, **util.swarm_sched(sim, PREF))


def reentrant(sim):
    """an observer that appends derived events to its own or to another stream while stop() is in progress"""
    def body(sc):
        from pm4py.streaming.algo.interface import StreamingAlgorithm
        st, size = make_stream(sim)
        st2, size2 = make_stream(sim)
        sink = make_observer(sim, "sink")
        own = make_observer(sim, "own")
        mode = sim.gen.pick(["other", "same"])

        class Fwd(StreamingAlgorithm):
            def _process(self, event):
                if event["i"] < 100:
                    (st2 if mode == "other" else st).append({"i": event["i"] + 100})
                    sim.injected("append-from-observer")

            def _current_result(self):
                return None
        st.register(Fwd())
        st.register(own)
        st2.register(sink)
        st2.start()
        st.start()
        n = sim.gen.int(1, 6)
        for i in range(n):
            st.append({"i": i})
        st.stop()
        st2.stop()
        util.settle(sc)
        left = threads_left(sc)
        sim.check(not left, "thread-leak", f"{left}")
        sim.check([i for i in own.seen if i < 100] and set(range(n)) <= set(own.seen), "lost-event", f"{own.seen}")
        if mode == "other":
            sim.check(sorted(sink.seen) == [i + 100 for i in range(n)], "lost-event",
                      f"forwarded events: {sorted(sink.seen)}")
        sim.nontrivial = sc.preemptions >= 3
        sim.cover(mode, tuple(own.seen), tuple(sink.seen))
    util.run_threads(sim, body, **util.swarm_sched(sim, PREF))


SCENARIOS = [("lifecycle", lifecycle, 3), ("failing_observers", failing_observers, 2), ("reentrant", reentrant, 1)]
