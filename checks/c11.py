"""C11: an import on a failing disk raises; it never returns part of the data."""
import errno
import os

from dst import formats, fs, gen

PROPERTY = "C11"
RUNS = {"quick": 1800, "thorough": 120000}
RULE = ("one run = one generated file imported from a simulated disk with seeded faults (EIO on the n-th read or open, end "
        "of file arriving early, short and interrupted reads), then imported again without faults; non-trivial when a "
        "fault fired in the middle of the file")
DISTINCT = "hash of format, fault plan, outcome and the normal form of the object"
REAL = ["pm4py.read_*", "pm4py.objects.*.importer.*", "lxml, pandas, gzip, sqlite3 (their C code)"]
STUB = ["open/read/close of the C library (forwarded to a scratch directory unless a fault is due)"]
ASSUMPTIONS = ["an early end of file is injected only for formats in which it can be recognised (not .dfg, .csv, and not databases, whose engine trusts the size of the file)"]


def load(sim, fmts):
    f = sim.gen.pick(fmts)
    sim.gen.bulk = sim.gen.pick([0.0, 0.1, 0.25])
    d = fs.FS(sim)
    obj = f.gen(sim.gen)
    want = f.norm(obj)
    p = d.path("t" + f.ext)
    f.write(obj, p)
    d.calm()
    sim.check(f.norm(f.read(p)) == want, "not-equal-without-faults", f"{f.name}", key=f"round-trip:{f.name}")
    nr, no = d.count(fs.READ), d.count(fs.OPENR)
    d.calm()
    x = sim.fault
    kind = x.weighted([("read-error", 5), ("early-eof", 4 if f.torn and "sqlite" not in f.name else 0), ("open-error", 1), ("short-reads", 3), ("eintr", 2)])
    if kind == "read-error":
        n = x.int(1, max(1, nr))
        d.fail(fs.READ, n if x.flag(0.7) else -n, x.pick([errno.EIO, errno.ESTALE, errno.EBADMSG]))
    elif kind == "early-eof":
        if x.flag(0.4):
            cap = x.pick([512, 100, 2000])
            d.readcap(cap)
            d.eof(x.int(1, max(1, os.path.getsize(p) // cap)))
        else:
            d.eof(x.int(1, max(1, nr - 1)))
    elif kind == "open-error":
        d.fail(fs.OPENR, x.int(1, max(1, no)), x.pick([errno.EACCES, errno.EMFILE, errno.EIO]))
    elif kind == "short-reads":
        d.readcap(x.pick([1000, 1, 7, 100, 4095]))
    else:
        d.fail(fs.READ, x.int(1, max(1, nr)), errno.EINTR)
    try:
        got, out = f.norm(f.read(p)), "returned"
    except Exception as e:  # noqa
        got, out = None, f"{type(e).__name__}: {e}".replace(d.dir, "")[:120].replace(d.dir, "")
    fired = d.errors()
    n = d.eofs() if kind == "early-eof" else d.shorts() if kind == "short-reads" else fired
    d.calm()
    if n:
        sim.injected(kind, n)
    sim.nontrivial = n > 0 and kind != "open-error"
    if got is not None:
        sim.check(got == want, "partial-import", lambda: f"{f.name} ({kind}): the import returned, {gen.first_diff(want, got)}",
                  key=f"partial:{f.name}")
        sim.probe("imported-despite-fault" if n else "imported")
    else:
        sim.check(kind not in ("short-reads", "eintr") and n > 0, "raised-without-fault", f"{f.name} ({kind}): {out}", key=f"raised:{f.name}")
        sim.probe("import-raised")
    # the disk is well again
    again = f.norm(f.read(p))
    sim.check(again == want, "failed-retry", lambda: f"{f.name}: {gen.first_diff(want, again)}", key=f"retry:{f.name}")
    sim.ev(f.name, kind, out, n, nr)
    sim.cover(f.name, kind, out, n, want)


F = [f for f in formats.ALL if "sqlite" not in f.name]
SCENARIOS = [("files", lambda sim: load(sim, F), 9),
             ("databases", lambda sim: load(sim, [f for f in formats.ALL if "sqlite" in f.name]), 1)]
