"""C12: an export that returns has written a complete file that is read back as the same object, whatever the disk did."""
import errno

from dst import formats, fs, gen

PROPERTY = "C12"
RUNS = {"quick": 1800, "thorough": 120000}
RULE = ("one run = one generated object exported through one of the 16 exporters onto a simulated disk with seeded faults "
        "(none, disk full after n bytes, EIO/EDQUOT on the n-th open/write/close, interrupted and short writes, an existing "
        "file being overwritten), then read back without faults; non-trivial when at least two writes were made")
DISTINCT = "hash of format, fault plan, outcome and the normal form of the object"
REAL = ["pm4py.write_*, pm4py.read_*", "pm4py.objects.*.exporter.*, pm4py.objects.*.importer.*", "lxml, pandas, gzip, sqlite3 (their C code)"]
STUB = ["open/write/close/fsync/rename/unlink of the C library (forwarded to a scratch directory unless a fault is due)"]
ASSUMPTIONS = ["timestamps are UTC; object-centric timestamps have whole seconds (OCEL 1.0 exporters print seconds)",
               "missing values, nested None values and labels that the format cannot express are not generated"]


class Quiet:
    """what Python prints about exceptions raised while finalising objects"""

    def __enter__(self):
        import sys
        self.h = sys.unraisablehook
        sys.unraisablehook = lambda a: None

    def __exit__(self, *a):
        import sys
        sys.unraisablehook = self.h


def plan(sim, d, nw, size, nopen, nclose):
    """seeded fault; returns (description, harmless)"""
    f = sim.fault
    kind = f.weighted([("none", 4), ("enospc", 5), ("write-error", 5), ("close-error", 2), ("open-error", 2),
                       ("short-writes", 3), ("eintr", 2), ("fsync-error", 1), ("unlink-error", 1)])
    if kind == "enospc":
        d.budget(f.int(0, max(0, size - 1)))
    elif kind == "write-error":
        n = f.int(1, max(1, nw))
        d.fail(fs.WRITE, n if f.flag(0.6) else -n, f.pick([errno.EIO, errno.ENOSPC, errno.EDQUOT]))
    elif kind == "close-error":
        d.fail(fs.CLOSEW, f.int(1, max(1, nclose)), f.pick([errno.EIO, errno.ENOSPC]))
    elif kind == "open-error":
        d.fail(fs.OPENW, f.int(1, max(1, nopen)), f.pick([errno.EACCES, errno.ENOSPC, errno.EMFILE]))
    elif kind == "short-writes":
        if f.flag(0.5):
            d.writecap(f.pick([1 << 9, 1, 7, 100]) if size < 20000 else f.pick([512, 4096]))
        else:
            for _ in range(f.int(1, 3)):
                d.short(fs.WRITE, f.int(1, max(1, nw)), f.int(1, 50))
        return kind, True
    elif kind == "eintr":
        d.fail(fs.WRITE, f.int(1, max(1, nw)), errno.EINTR)
        return kind, True
    elif kind == "fsync-error":
        d.fail(fs.FSYNC, f.int(1, 6), errno.EIO)
    elif kind == "unlink-error":
        d.fail(fs.UNLINK, 1, errno.EACCES)
    return kind, kind == "none"


def export(fmts, sim):
    f = sim.gen.pick(fmts)
    sim.gen.bulk = sim.gen.pick([0.0, 0.12, 0.3])
    d = fs.FS(sim)
    obj = f.gen(sim.gen)
    want = f.norm(obj)
    probe = d.path("probe" + f.ext)
    p = d.path("target" + f.ext)
    d.calm()
    f.write(obj, probe)
    nw, no, nc = d.count(fs.WRITE), d.count(fs.OPENW), d.count(fs.CLOSEW)
    import os
    size = os.path.getsize(probe)
    got = f.norm(f.read(probe))
    sim.check(got == want, "not-equal-without-faults", lambda: f"{f.name}: {gen.first_diff(want, got)}", key=f"round-trip:{f.name}")
    sim.check(f.norm(obj) == want, "object-changed", f"{f.name}: the export changed the object", key=f"mutated:{f.name}")
    if sim.gen.flag(0.4):
        old = f.gen(sim.gen)
        f.write(old, p)
        sim.probe("overwrite")
    d.calm()
    kind, harmless = plan(sim, d, nw, size, no, nc)
    sim.nontrivial = nw >= 2
    failed = None
    retry_inside = sim.fault.flag(0.5)
    with Quiet():
        try:
            f.write(obj, p)
        except Exception as e:  # noqa
            failed = f"{type(e).__name__}: {e}"
            fired = d.errors()
            d.calm()
            if retry_inside:
                f.write(obj, p)     # the usual "try again" while the failure is being handled
        else:
            fired = d.errors()
            short = d.shorts()
            d.calm()
    if failed is None:
        if kind in ("short-writes",) and short:
            sim.injected(kind, short)
        if fired:
            sim.injected(kind, fired)
    else:
        sim.injected(kind, max(1, fired))
        sim.probe("export-raised")
        sim.check(fired > 0 or not harmless, "raised-without-fault", f"{f.name} ({kind}): {failed}", key=f"raised:{f.name}")
        sim.check(not (harmless and kind != "eintr"), "raised-without-fault", f"{f.name} ({kind}): {failed}", key=f"raised:{f.name}")
        if not retry_inside:
            f.write(obj, p)         # the disk is well again: the same call succeeds
        sim.probe("retried")
    try:
        got = f.norm(f.read(p))
    except Exception as e:  # noqa
        got = ("unreadable", f"{type(e).__name__}: {e}"[:200])
    what = "silent-loss" if failed is None else "failed-retry"
    sim.check(got == want, what, lambda: f"{f.name} ({kind}, {'returned normally' if failed is None else 'raised ' + failed + ', then the retry returned'}): "
              f"{got if got[:1] == ('unreadable',) else gen.first_diff(want, got)}", key=f"{what}:{f.name}")
    sim.cover(f.name, kind, failed is None, fired, want)
    sim.ev(f.name, kind, failed, fired, nw, size)


def frame(g):
    """a DataFrame whose columns have one type each (what Parquet can express)"""
    import pandas as pd
    rows = [{"case:concept:name": f"c{g.int(0, 3)}", "concept:name": gen.word(g), "time:timestamp": gen.when(g, False),
             "num": g.pick([0.5, -1e9, 3.0]), "int": g.int(-5, 9), "flag": g.flag(0.5), "text": gen.word(g, 0.5, True)}
            for _ in range(g.int(1, 6))]
    return pd.DataFrame(rows)


def serialise(sim):
    """pm4py.serialize / pm4py.deserialize and the variants that write to strings"""
    import pm4py
    g = sim.gen
    g.bulk = 0.0
    kind = g.pick(["log", "net", "tree", "bpmn", "dfg", "df"])
    fmt = formats.BY[{"log": "xes", "net": "pnml", "tree": "ptml", "bpmn": "bpmn", "dfg": "dfg", "df": "xes-df"}[kind]]
    o = frame(g) if kind == "df" else fmt.gen(g)
    if kind == "net" and not o[2]:
        o[2][sorted(o[0].places, key=lambda p: p.name)[0]] = 1    # an empty final marking is guessed anew by deserialize
    want = fmt.norm(o)
    ser = pm4py.serialize(*(o if isinstance(o, tuple) else (o,)))
    sim.check(ser is not None, "nothing-serialised", f"{kind}: {type(o[0] if isinstance(o, tuple) else o).__name__}", key=f"serialise:{kind}")
    got = pm4py.deserialize(tuple(ser))
    sim.check(got is not None and fmt.norm(got) == want, "not-equal-after-deserialize",
              lambda: f"{kind}: {gen.first_diff(want, fmt.norm(got)) if got is not None else None}", key=f"serialise:{kind}")
    sim.check(fmt.norm(o) == want, "object-changed", f"serialize {kind}", key=f"mutated:{kind}")
    sim.cover("serialise", kind, want)
    sim.ev("serialise", kind, len(ser[1]))


ANY = formats.ALL + formats.MORE
BIG = [f for f in ANY if "sqlite" not in f.name]
SQL = [f for f in ANY if "sqlite" in f.name]
SCENARIOS = [("serialise", serialise, 1), ("files", lambda sim: export(BIG, sim), 9), ("databases", lambda sim: export(SQL, sim), 1)]
