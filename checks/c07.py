"""C07: the dictionary used by the streaming algorithms is linearizable and never blocks its callers."""
from dst import util
from dst.linz import linearizable

PROPERTY = "C07"
RUNS = {"quick": 7000, "thorough": 150000}
RULE = ("one run = 2-3 simulated threads issuing 2-5 operations each on one dictionary under line/opcode-level "
        "preemption; the recorded history is checked for linearizability against a plain dict; non-trivial when "
        ">= 4 operations overlapped with at least one forced switch")
DISTINCT = "hash of the thread switches and of the operation results"
REAL = ["pm4py.streaming.util.dictio (thread_safe and redis variants)"]
STUB = ["lock primitive, OS thread scheduling (simulated)", "the key-value server and its connection (simulated)"]
ASSUMPTIONS = ["a single C-level dict operation is atomic (CPython)"]
PREF = (util.REPO + "/pm4py/streaming/util",)
MISSING = "<missing>"


def apply_model(state, op, args):
    d = dict(state)
    if op == "set":
        d[args[0]] = args[1]
        return None, tuple(sorted(d.items()))
    if op == "get":
        return d.get(args[0], MISSING), state
    if op == "in":
        return args[0] in d, state
    if op == "del":
        if args[0] in d:
            del d[args[0]]
            return None, tuple(sorted(d.items()))
        return MISSING, state
    if op == "len":
        return len(d), state
    if op in ("keys", "iter"):
        return tuple(sorted(d)), state
    if op in ("values", "itervalues"):
        return tuple(sorted(d.values())), state
    if op == "items":
        return tuple(sorted(d.items())), state
    if op == "badset":
        return "TypeError", state
    if op == "pop":
        r = d.pop(args[0], MISSING)
    elif op == "setdefault":
        r = d.setdefault(*args)
    elif op == "update":
        r = d.update(dict(args))
    elif op == "clear":
        r = d.clear()
    else:
        raise KeyError(op)
    return r, tuple(sorted(d.items()))


def do(d, op, args):
    if op == "set":
        d[args[0]] = args[1]
        return None
    if op == "get":
        try:
            return d[args[0]]
        except KeyError:
            return MISSING
    if op == "in":
        return args[0] in d
    if op == "del":
        try:
            del d[args[0]]
            return None
        except KeyError:
            return MISSING
    if op == "len":
        return len(d)
    if op == "keys":
        return tuple(sorted([k for k in d.keys()]))
    if op == "iter":
        return tuple(sorted([k for k in d]))
    if op == "values":
        return tuple(sorted([v for v in d.values()]))
    if op == "itervalues":
        return tuple(sorted([v for v in d.itervalues()]))
    if op == "items":
        return tuple(sorted([x for x in d.items()]))
    if op == "pop":
        return d.pop(args[0], MISSING)
    if op == "setdefault":
        return d.setdefault(*args)
    if op == "update":
        return d.update(dict(args))
    if op == "clear":
        return d.clear()
    if op == "badset":
        try:
            d[[1]] = 2
            return None
        except TypeError:
            return "TypeError"


def history(sim):
    def body(sc):
        from pm4py.streaming.util.dictio import generator
        d = generator.apply(variant=generator.Variants.THREAD_SAFE)
        keys = ["a", "b", "c"][:sim.gen.int(1, 3)]
        seq = iter(range(1 << 30))
        vals = iter(range(1, 1000))
        ops = []
        init = {}
        for k in keys:
            if sim.gen.flag(0.5):
                v = next(vals)
                d[k] = v
                init[k] = v
        weights = [("set", 5), ("get", 3), ("in", 2), ("del", 2), ("len", 1), ("keys", 2), ("iter", 2), ("values", 2),
                   ("itervalues", 1), ("badset", 1), ("items", 2), ("pop", 1), ("setdefault", 1), ("update", 1), ("clear", 1)]

        def client(plan):
            def f():
                for op, args in plan:
                    o = {"inv": next(seq), "op": op, "args": args}
                    try:
                        o["res"] = do(d, op, args)
                    except RuntimeError as e:
                        sim.check(False, "operation-failed", f"{op}{args} raised {type(e).__name__}: {e}")
                    if op == "badset":
                        sim.injected("failing-operation")
                    o["ret"] = next(seq)
                    ops.append(o)
                    sim.ev(op, args, "->", o["res"])
            return f
        clients = []
        for c in range(sim.gen.int(2, 3)):
            plan = []
            for _ in range(sim.gen.int(2, 5)):
                op = sim.gen.weighted(weights)
                a = ()
                if op in ("set", "get", "in", "del", "pop", "setdefault"):
                    a = (sim.gen.pick(keys),)
                    if op in ("set", "setdefault"):
                        a += (next(vals),)
                elif op == "update":
                    a = tuple((k, next(vals)) for k in keys)
                plan.append((op, a))
            clients.append((f"C{c}", client(plan)))
        join = util.spawn(sc, clients)
        join()
        sim.check(linearizable(ops, tuple(sorted(init.items())), apply_model), "not-linearizable",
                  lambda: f"init {init}, history {[(o['inv'], o['ret'], o['op'], o['args'], o['res']) for o in ops]}")
        final = {k: d[k] for k in keys if k in d}
        fin = {"inv": 1 << 31, "ret": 1 << 32, "op": "keys", "args": (), "res": tuple(sorted(final))}
        sim.check(linearizable(ops + [fin], tuple(sorted(init.items())), apply_model), "not-linearizable",
                  lambda: f"final state {final}")
        sim.nontrivial = len(ops) >= 4 and sc.preemptions >= 2
        sim.cover([(o["op"], o["res"]) for o in ops])
    g = sim.schedule.pick(["opcode", "line"])
    util.run_threads(sim, body, PREF + ("/verif/checks/c07",), g, sim.schedule.pick([6, 15, 40]), 0.7)


class FakeRedis:
    """the key-value server on the other side of a lossy connection"""

    def __init__(self, sim):
        self.sim = sim
        self.data = {}

    def _net(self):
        sc = self.sim.sched
        if sc is not None:
            sc.yield_("network")
        f = self.sim.fault.weighted([("ok", 8), ("lost-request", 1), ("lost-reply", 1)])
        if f != "ok":
            self.sim.injected(f)
        return f

    def __setitem__(self, k, v):
        f = self._net()
        if f == "lost-request":
            raise ConnectionError("request lost")
        self.data[k] = v
        if f == "lost-reply":
            raise ConnectionError("reply lost")

    def keys(self):
        f = self._net()
        if f != "ok":
            raise ConnectionError("connection lost")
        return list(self.data)

    def flushdb(self):
        f = self._net()
        if f != "ok":
            raise ConnectionError("connection lost")
        self.data.clear()


def remote(sim):
    """the server-backed variant over a faulty connection: an operation may fail, none may block, an
    acknowledged write is readable"""
    def body(sc):
        from pm4py.streaming.util.dictio.versions.redis import ThreadSafeRedisDict
        srv = FakeRedis(sim)
        d = ThreadSafeRedisDict(srv)
        vals = iter(range(1, 1000))
        acked = {}
        done = []

        def client(c, plan):
            def f():
                for op, k in plan:
                    k = f"{k}{c}"        # each client its own keys: acknowledged means readable
                    try:
                        if op == "set":
                            v = next(vals)
                            d[k] = v
                            acked[k] = v
                        elif op == "get":
                            if k in acked:
                                sim.check(d[k] == acked[k], "acknowledged-write-lost", f"{k}: {acked[k]}")
                        elif op == "readall":
                            # what can be read is on the server
                            seen = [x for x in [y + str(z) for y in "abc" for z in range(3)] if x in d]
                            got = set(d.keys())
                            sim.check(set(seen) <= got, "read-but-not-stored", f"{set(seen) - got}")
                        elif op == "keys":
                            mine = {x for x in acked if x.endswith(str(c))}
                            got = set(d.keys())
                            sim.check(mine <= got, "acknowledged-write-lost", f"{mine - got}")
                        elif op == "iter":
                            mine = {x for x in acked if x.endswith(str(c))}
                            got = {x for x in d}
                            sim.check(mine <= got, "acknowledged-write-lost", f"{mine - got}")
                    except ConnectionError:
                        # the write may or may not have reached the server
                        if op == "set":
                            acked.pop(k, None)
                    done.append(op)
                    sim.ev(c, op, k)
            return f
        clients = []
        for c in range(sim.gen.int(2, 3)):
            clients.append((f"C{c}", client(c, [(sim.gen.weighted([("set", 3), ("get", 2), ("keys", 1), ("iter", 1), ("readall", 2)]),
                                                 sim.gen.pick("abc")) for _ in range(sim.gen.int(2, 5))])))
        util.spawn(sc, clients)()
        sim.nontrivial = len(done) >= 4 and sum(sim.faults.values()) > 0
        sim.cover(done, sorted(srv.data.items()))
    util.run_threads(sim, body, PREF, sim.schedule.pick(["line", None]), 10, 0.5)


SCENARIOS = [("history", history, 3), ("remote", remote, 1)]
