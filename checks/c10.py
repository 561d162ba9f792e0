"""C10: the result of an XES import does not depend on where the parser's chunk boundaries fall."""
import gzip
import os

from dst import fs, gen, xesdoc

PROPERTY = "C10"
RUNS = {"quick": 9000, "thorough": 120000}
RULE = ("one run = a generated log written as an XES document by the harness or by pm4py's exporters, shifted so that a "
        "chosen byte (in a tag, an entity, a multi-byte character, between an attribute and its children) is the first of "
        "a chunk, then imported by every importer that supports its features, from a file, a compressed file or a string, "
        "with seeded short reads; non-trivial when the file spans at least two chunks and has >= 1 event")
DISTINCT = "hash of the document and of the position of the boundary"
REAL = ["pm4py.objects.log.importer.xes.*", "pm4py.objects.log.exporter.xes.*", "lxml, gzip (their C code)"]
STUB = ["open/read/close of the C library (forwarded to a scratch directory, reads may be short)"]
ASSUMPTIONS = ["the line-by-line and chunk_regex importers are documented for simple attributes only: they are given logs without nested attributes"]
IP = ["ITERPARSE", "ITERPARSE_MEM_COMPRESSED"]


def anchors(data, g):
    """byte positions where a boundary hurts"""
    start = data.index(b"?>") + 2
    kind = g.pick(["any", "lt", "gt", "amp", "multibyte", "quote", "open"])
    test = {"any": lambda i: True, "lt": lambda i: data[i] == 60, "gt": lambda i: data[i] == 62,
            "amp": lambda i: data[i] == 38, "multibyte": lambda i: data[i] >= 128, "quote": lambda i: data[i] in (34, 39),
            "open": lambda i: data[i] == 62 and data[i - 1] not in (47, 45) and data[i:i + 3] != b"></"}[kind]
    pos = [i for i in range(start, len(data)) if test(i)]
    if not pos:
        pos = range(start, len(data))
    return kind, g.pick(pos)


def run(sim, family):
    from pm4py.objects.log.importer.xes import importer
    g = sim.gen
    g.bulk = g.pick([0.0, 0.0, 0.05])
    nested = family != "simple"
    log = gen.event_log(g, depth=g.pick([2, 1, 3]) if nested else 0, nev=(1, 4))
    if family == "xes2":
        variants, layout, values = ["ITERPARSE_20"], "free", False
    elif nested:
        variants, layout, values = IP, "free", True
    else:
        variants, layout, values = ["CHUNK_REGEX", "LINE_BY_LINE"] + IP + ["ITERPARSE_20"], g.pick(["lines", "flat"]), True
        if layout == "flat":
            variants.remove("LINE_BY_LINE")
    d = fs.FS(sim)
    src = "doc"
    if family != "xes2" and g.flag(0.35):
        from pm4py.objects.log.exporter.xes import exporter
        src = g.pick(["LINE_BY_LINE", "ETREE"])
        p = d.path("e.xes")
        exporter.apply(log, p, variant=exporter.Variants[src], parameters={"show_progress_bar": False})
        data = open(p, "rb").read()
    else:
        data = xesdoc.Doc(g, layout, values).log(log)
    want = gen.norm_log(log)
    kind, pos = anchors(data, g)
    v = g.pick(variants)
    chunk = {"CHUNK_REGEX": 4096, "LINE_BY_LINE": 8192}.get(v, 32768)
    if g.flag(0.2):
        chunk = g.pick([4096, 8192, 32768])
    off = g.pick([0, 1, -1, 2, 3, -2])
    pos = min(max(pos + off, data.index(b"?>") + 2), len(data) - 1)
    data, at = xesdoc.place(data, pos, chunk, g, g.pick(["start", "spread"]))
    sim.injected("boundary-at-" + kind)
    how = g.weighted([("file", 4), ("gz", 2), ("string", 2), ("gzstring", 1)])
    par = {"show_progress_bar": False}
    n = len(log)
    if g.flag(0.2) and v != "CHUNK_REGEX":
        n = g.int(1, len(log) + 1)
        par["max_traces"] = n
    V = importer.Variants[v]
    if how in ("file", "gz"):
        p = d.path("t.xes" + (".gz" if how == "gz" else ""))
        with open(p, "wb") as f:
            f.write(gzip.compress(data, g.pick([6, 0, 1])) if how == "gz" else data)
        d.calm()
        if sim.fault.flag(0.4):
            d.readcap(sim.fault.pick([4096, 1000, 100, 32767, 513]))
        got = importer.apply(p, variant=V, parameters=par)
        if d.shorts():
            sim.injected("short-reads", d.shorts())
    else:
        if how == "gzstring":
            par["decompress_serialization"] = True
        b = gzip.compress(data) if how == "gzstring" else data.decode("utf-8") if g.flag(0.4) else data
        got = importer.deserialize(b, variant=V, parameters=par)
    have = gen.norm_log(got)
    meta, traces = want
    if v == "LINE_BY_LINE":
        meta = have[0]
    exp = (meta, traces[:n])
    sim.nontrivial = len(data) > chunk and any(len(t) for t in log)
    sim.ev(v, how, src, kind, at, chunk, len(data), "max", n, "nested", nested)
    sim.check(have == exp, "chunk-dependent-import",
              lambda: f"{v} ({how}, boundary {chunk} at a {kind}): {gen.first_diff(exp, have)}", key=f"import:{v}")
    sim.cover(v, how, kind, at, hash_of(data))


def hash_of(data):
    import hashlib
    return hashlib.sha256(data).hexdigest()[:16]


SCENARIOS = [("nested", lambda s: run(s, "nested"), 4), ("simple", lambda s: run(s, "simple"), 4),
             ("xes2", lambda s: run(s, "xes2"), 2)]
