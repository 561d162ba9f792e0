"""C13: after a crash in the middle of an export the file is never imported as something else than what was exported."""
import os

from dst import formats, fs, gen

PROPERTY = "C13"
RUNS = {"quick": 1400, "thorough": 100000}
RULE = ("one run = one export recorded write by write on the simulated disk (sometimes over an older export), then 3 to 8 "
        "seeded crash points: a prefix of the operations, the last write torn at a seeded byte, or (power loss) unsynced "
        "writes missing; each resulting file is imported; non-trivial when a crash left a non-empty, incomplete file")
DISTINCT = "hash of format, crash points, torn lengths and the outcome of each import"
REAL = ["pm4py.write_*, pm4py.read_*", "pm4py.objects.*.exporter.*, pm4py.objects.*.importer.*", "lxml, pandas, gzip, sqlite3 (their C code)"]
STUB = ["C library file calls (recorded); the disk after the crash is rebuilt from the recorded operations"]
ASSUMPTIONS = ["formats whose truncation cannot be recognised (.dfg, .csv) are excluded",
               "power loss: only writes not followed by an fsync of the same file can be lost, and they leave zero bytes or nothing"]


def crash(sim, fmts):
    f = sim.gen.pick(fmts)
    sim.gen.bulk = sim.gen.pick([0.0, 0.1, 0.25])
    d = fs.FS(sim)
    obj = f.gen(sim.gen)
    new = f.norm(obj)
    p = d.path("t" + f.ext)
    base, old = {}, None
    if sim.gen.flag(0.3):
        o = f.gen(sim.gen)
        old = f.norm(o)
        f.write(o, p)
        base = {p: open(p, "rb").read()}
        sim.probe("overwrite")
    d.calm()
    d.record()
    f.write(obj, p)
    ops = d.oplog()
    d.calm()
    full = open(p, "rb").read()
    rebuilt = fs.disk_after(ops, len(ops), base=base)
    if bytes(rebuilt.get(p, b"")) != full:
        raise AssertionError(f"harness: op log does not reproduce {f.name}")
    writes = [i for i, o in enumerate(ops) if o[0] == fs.WRITE]
    seen = set()
    for _ in range(sim.fault.int(3, 8)):
        k = sim.fault.int(0, len(ops))
        torn, drop = None, ()
        mode = sim.fault.weighted([("prefix", 3), ("torn", 5), ("power", 2)])
        if mode == "torn" and writes:
            k = sim.fault.pick(writes) + 1
            n = len(ops[k - 1][3])
            torn = sim.fault.pick([sim.fault.int(0, n), n - 1 if n else 0, sim.fault.int(0, n) // 512 * 512])
        elif mode == "power" and writes:
            # the last fsync of the file is a barrier
            last = max([i for i, o in enumerate(ops[:k]) if o[0] == fs.FSYNC], default=-1)
            drop = tuple(i for i in writes if last < i < k and sim.fault.flag(0.4))
        files = fs.disk_after(ops, k, torn, base, drop)
        sim.injected({"prefix": "crash", "torn": "torn-write", "power": "power-loss"}[mode])
        # reboot: the directory holds what survived
        for n in os.listdir(d.dir):
            os.unlink(os.path.join(d.dir, n))
        for n, b in files.items():
            with open(n, "wb") as out:
                out.write(b)
        content = bytes(files.get(p, b""))
        if 0 < len(content) and content != full and content != base.get(p):
            sim.nontrivial = True
        try:
            got = f.norm(f.read(p))
            out = "imported"
        except Exception as e:  # noqa
            got, out = None, type(e).__name__
        sim.ev(f.name, mode, k, torn, len(drop), len(content), out)
        seen.add((mode, k, torn, out))
        if got is not None:
            sim.check(got in (new, old), "partial-import",
                      lambda: f"{f.name}: a file of {len(content)} of {len(full)} bytes ({mode}, operation {k} of {len(ops)}) was imported "
                              f"silently as something else: {gen.first_diff(new, got)}", key=f"partial:{f.name}")
            sim.probe("complete-after-crash")
    if sim.fault.flag(0.5):
        # restarted on what the last crash left behind, the same export succeeds
        f.write(obj, p)
        got = f.norm(f.read(p))
        sim.check(got == new, "export-after-crash", lambda: f"{f.name}: {gen.first_diff(new, got)}", key=f"restart:{f.name}")
        sim.probe("restarted")
    sim.cover(f.name, sorted(map(repr, seen)))


T = [f for f in formats.ALL if f.torn]
SCENARIOS = [("files", lambda sim: crash(sim, [f for f in T if "sqlite" not in f.name]), 9),
             ("databases", lambda sim: crash(sim, [f for f in T if "sqlite" in f.name]), 1)]
