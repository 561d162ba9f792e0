"""C09: the streaming file readers yield exactly the events and traces of the file, whatever the history of calls."""
import csv
import errno
import io
import os

from dst import fs, gen, util, xesdoc
from checks.c10 import anchors, hash_of

PROPERTY = "C09"
RUNS = {"quick": 9000, "thorough": 120000}
RULE = ("one run = a generated XES or CSV file whose chunk boundaries fall at seeded bytes, read through the streaming "
        "readers by a seeded history of next / reset / drain-to-live-stream calls of one or two readers, with acceptance "
        "conditions, short reads, read errors and early ends of file; non-trivial when >= 3 elements were read over >= 2 "
        "operations")
DISTINCT = "hash of the file, the history of calls, the faults and the elements read"
REAL = ["pm4py.streaming.importer.xes", "pm4py.streaming.importer.csv", "pm4py.streaming.stream.live_event_stream",
        "pm4py.streaming.stream.live_trace_stream", "lxml, csv (their C code)"]
STUB = ["open/read/close of the C library (forwarded to a scratch directory unless a fault is due)",
        "lock primitive, OS thread scheduling, clock (simulated)"]
ASSUMPTIONS = ["the end of a truncated CSV file cannot be recognised: early ends are injected for XES only"]


def norm_case(tr, ev):
    d = dict(ev)
    for k, v in tr.attributes.items():
        d["case:" + k] = v
    return gen.norm_attrs(d)


def norm_trace(t):
    return (gen.norm_attrs(t.attributes), tuple(gen.norm_attrs(dict(e)) for e in t))


def setup_xes(sim, d, kind):
    g = sim.gen
    g.bulk = g.pick([0.0, 0.0, 0.05])
    log = gen.event_log(g, depth=g.pick([1, 0, 2, 3]), nev=(0, 4), ntr=(1, 5))
    data = xesdoc.Doc(g, "free", True).log(log)
    k, pos = anchors(data, g)
    pos = min(max(pos + g.pick([0, 1, -1]), data.index(b"?>") + 2), len(data) - 1)
    data, at = xesdoc.place(data, pos, 32768, g, g.pick(["start", "spread"]))
    sim.injected("boundary-at-" + k)
    p = d.path("s.xes")
    with open(p, "wb") as f:
        f.write(data)
    par = {}
    if kind == "event":
        cond = None
        if g.flag(0.4):
            m, r = g.int(2, 3), g.int(0, 1)
            cond = lambda e: len(e.get("concept:name", "")) % m != r
        exp = [norm_case(t, e) for t in log for e in t if cond is None or cond(e)]
        norm = lambda e: gen.norm_attrs(dict(e))
    else:
        cond = None
        if g.flag(0.4):
            m = g.int(1, 3)
            cond = lambda t: len(t) != m
        exp = [norm_trace(t) for t in log if cond is None or cond(t)]
        norm = norm_trace
    if cond is not None:
        par["acceptance_condition"] = cond
    return p, par, exp, norm, len(data)


def setup_csv(sim, d):
    g = sim.gen
    g.bulk = g.pick([0.0, 0.1])
    cols = ["case:concept:name", "concept:name", "time:timestamp", "x" + gen.word(g, 0.3)][:g.int(3, 4)]
    rows = [{c: gen.word(g, 0.6, ws=True) if g.flag(0.8) else "" for c in cols} for _ in range(g.int(0, 8))]
    b = io.StringIO()
    w = csv.DictWriter(b, cols, quoting=g.pick([csv.QUOTE_MINIMAL, csv.QUOTE_ALL]), lineterminator=g.pick(["\n", "\r\n"]))
    w.writeheader()
    w.writerows(rows)
    data = b.getvalue().encode("utf-8")
    p = d.path("s.csv")
    with open(p, "wb") as f:
        f.write(data)
    par = {}
    tf = lambda x: x
    if g.flag(0.3):
        par["transformation_function"] = tf = lambda e: {**e, "len": str(len(e["concept:name"]))}
    cond = lambda e: True
    if g.flag(0.4):
        m = g.int(2, 3)
        par["acceptance_condition"] = cond = lambda e: len(e["concept:name"]) % m != 0
    exp = [tuple(sorted(tf(dict(r)).items())) for r in rows if cond(tf(dict(r)))]
    return p, par, exp, lambda e: tuple(sorted(e.items())), len(data)


def reading(sim, kind):
    from pm4py.streaming.importer.xes import importer as xi
    from pm4py.streaming.importer.csv import importer as ci
    from pm4py.streaming.stream.live_event_stream import LiveEventStream
    from pm4py.streaming.stream.live_trace_stream import LiveTraceStream
    from pm4py.streaming.algo.interface import StreamingAlgorithm
    g, x = sim.gen, sim.fault
    d = fs.FS(sim)
    if kind == "csv":
        p, par, exp, norm, size = setup_csv(sim, d)
        make = lambda: ci.apply(p, parameters=par)
        drain, live = "to_event_stream", LiveEventStream
    else:
        p, par, exp, norm, size = setup_xes(sim, d, kind)
        v = xi.Variants.XES_EVENT_STREAM if kind == "event" else xi.Variants.XES_TRACE_STREAM
        make = lambda: xi.apply(p, parameters=par, variant=v)
        drain, live = ("to_event_stream", LiveEventStream) if kind == "event" else ("to_trace_stream", LiveTraceStream)
    d.calm()
    plan = x.weighted([("none", 4), ("short-reads", 3), ("read-error", 3), ("early-eof", 2 if kind != "csv" else 0)])
    cap = None
    if plan == "short-reads":
        cap = x.pick([1000, 1, 100, 8191, 32767])
        if cap == 1 and size > 20000:
            cap = 64
        d.readcap(cap)
    elif plan != "none":
        if x.flag(0.5):
            cap = x.pick([2000, 512, 8192])
            d.readcap(cap)
        n = x.int(1, max(1, size // (cap or 32768) + 1))
        if plan == "read-error":
            d.fail(fs.READ, n, x.pick([errno.EIO, errno.ESTALE]))
        else:
            d.eof(n)
    fired = lambda: d.errors() + d.eofs() if plan in ("read-error", "early-eof") else 0

    class Rec(StreamingAlgorithm):
        def __init__(self):
            super().__init__()
            self.seen = []

        def _process(self, e):
            self.seen.append(norm(e))

        def _current_result(self):
            return list(self.seen)

    hist = []

    class R:
        def __init__(self):
            self.r = make()
            self.got = []
            self.ended = False

    def failed(r, e):
        sim.check(fired() > 0, "reader-raised", f"{type(e).__name__} without a fault: {str(e)[:150]}", key="raised:" + kind)
        hist.append("err")
        sim.injected(plan)
        # what was read is a prefix; the disk gets well and the reader is reset
        d.calm()
        sim.check(r.got == exp[:len(r.got)], "wrong-prefix", lambda: gen.first_diff(tuple(exp[:len(r.got)]), tuple(r.got)), key="prefix:" + kind)
        r.r.reset()
        r.got, r.ended = [], False

    def step(r):
        op = g.weighted([("next", 6), ("some", 3), ("drain", 2), ("reset", 1), ("all", 2), ("after-end", 1)])
        hist.append(op)
        try:
            if op in ("next", "some", "all", "after-end"):
                for _ in range({"next": 1, "some": g.int(1, 4), "all": 10 ** 6, "after-end": 1}[op]):
                    e = next(r.r)
                    sim.check(e is not None, "nothing-returned", f"{kind}: next() returned None", key="none:" + kind)
                    r.got.append(norm(e))
            elif op == "reset":
                r.r.reset()
                r.got, r.ended = [], False
            else:
                return stream(r)
        except StopIteration:
            end(r)
        except Exception as e:  # noqa
            if type(e).__name__ == "Violation":
                raise
            failed(r, e)

    def end(r):
        if not r.ended:
            f = fired()
            sim.check(f == 0 or plan != "early-eof" or r.got == exp, "silent-truncation", f"{kind}: end reached after {len(r.got)} of {len(exp)} elements of a truncated file", key="trunc:" + kind)
            sim.check(r.got == exp, "wrong-elements", lambda: f"{kind}: {len(r.got)} elements for {len(exp)}; " + gen.first_diff(tuple(exp), tuple(r.got)), key="elements:" + kind)
        r.ended = True

    def stream(r):
        rec = [Rec() for _ in range(g.int(1, 2))]
        err = []

        def body(sc):
            s = live()
            for o in rec:
                s.register(o)
            s.start()
            try:
                getattr(r.r, drain)(s)
            except StopIteration:
                pass
            except Exception as e:  # noqa
                err.append(e)
            s.stop()
        util.run_threads(sim, body, prefixes=(), granularity=None)
        seen = [o.seen for o in rec]
        sim.check(all(s == seen[0] for s in seen), "observers-differ", "")
        r.got += seen[0]
        if err:
            failed(r, err[0])
        else:
            end(r)

    try:
        readers = [R() for _ in range(g.weighted([(1, 3), (2, 2)]))]
    except Exception as e:  # noqa
        sim.check(fired() > 0, "reader-raised", f"{type(e).__name__} on opening: {str(e)[:150]}")
        sim.injected(plan)
        d.calm()
        readers = [R()]
    for _ in range(g.int(2, 10)):
        k = g.int(0, len(readers) - 1)
        hist.append(k)
        step(readers[k])
    for r in readers:
        for _ in range(2):
            if not r.ended:
                try:
                    for e in r.r:
                        r.got.append(norm(e))
                    end(r)
                except Exception as e:  # noqa
                    if type(e).__name__ == "Violation":
                        raise
                    failed(r, e)
        sim.check(r.ended, "never-ends", f"{kind}")
    if plan == "short-reads" and d.shorts():
        sim.injected(plan, d.shorts())
    sim.nontrivial = len(exp) >= 3 and sum(1 for h in hist if isinstance(h, str)) >= 2
    sim.ev(kind, plan, hist, len(exp))
    sim.cover(kind, plan, cap, hist, hash_of(repr(exp).encode()))


SCENARIOS = [("events", lambda s: reading(s, "event"), 4), ("traces", lambda s: reading(s, "trace"), 3),
             ("csv", lambda s: reading(s, "csv"), 2)]
