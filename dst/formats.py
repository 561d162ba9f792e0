"""every file format of pm4py: generator, writer, reader and normal form"""
from . import gen as G


class Fmt:
    def __init__(self, name, ext, gen, write, read, norm, torn=True, expect=None, aux=None):
        self.name, self.ext, self.gen, self.write, self.read, self.norm = name, ext, gen, write, read, norm
        self.torn = torn            # a truncated file is recognisable in this format
        self.expect = expect or norm
        self.aux = aux


def _xes_w(variant):
    def w(o, p):
        from pm4py.objects.log.exporter.xes import exporter
        exporter.apply(o, p, variant=exporter.Variants[variant], parameters={"show_progress_bar": False})
    return w


def _xes_r(variant):
    def r(p):
        from pm4py.objects.log.importer.xes import importer
        return importer.apply(p, variant=importer.Variants[variant], parameters={"show_progress_bar": False})
    return r


def _pn(fn, *a):
    import pm4py
    return getattr(pm4py, fn)(*a)


def _w(fn):
    def w(o, p):
        import pm4py
        getattr(pm4py, fn)(*(o if isinstance(o, tuple) else (o,)), p)
    return w


def _r(fn, **kw):
    def r(p):
        import pm4py
        return getattr(pm4py, fn)(p, **kw)
    return r


def _w_bpmn(o, p):
    import pm4py
    pm4py.write_bpmn(o, p, auto_layout=False)


def _w2json(o, p):
    from pm4py.write import write_ocel2_json
    write_ocel2_json(o, p)


def _w_csv(o, p):
    import pm4py
    pm4py.write_ocel_csv(o, p, p + ".objects.csv")


def _r_csv(p):
    import pm4py
    return pm4py.read_ocel_csv(p, p + ".objects.csv")


def _df(g):
    import pm4py
    log = G.event_log(g, depth=0, meta=False, nev=(1, 4), offsets=False)
    from pm4py.objects.conversion.log import converter
    return converter.apply(log, variant=converter.Variants.TO_DATA_FRAME)


def _w_df(o, p):
    import pm4py
    pm4py.write_xes(o, p, show_progress_bar=False)


def _r_df(p):
    import pm4py
    return pm4py.read_xes(p, show_progress_bar=False)


def _w_any(o, p):
    import pm4py
    pm4py.write_ocel(o, p, p + ".objects.csv") if p.endswith("csv") else pm4py.write_ocel(o, p)


def _r_any(p):
    import pm4py
    return pm4py.read_ocel(p, p + ".objects.csv") if p.endswith("csv") else pm4py.read_ocel(p)


def _w2json20(o, p):
    from pm4py.objects.ocel.exporter.jsonocel import exporter
    exporter.apply(o, p, variant=exporter.Variants.OCEL20)


def _r2json20(p):
    from pm4py.objects.ocel.importer.jsonocel import importer
    return importer.apply(p, variant=importer.Variants.CLASSIC)


N1 = lambda o: G.norm_ocel(o)
N2 = lambda o: G.norm_ocel(o, True)
ALL = [
    Fmt("xes", ".xes", G.event_log, _xes_w("LINE_BY_LINE"), _xes_r("ITERPARSE"), G.norm_log),
    Fmt("xes.gz", ".xes.gz", G.event_log, _xes_w("LINE_BY_LINE"), _xes_r("ITERPARSE"), G.norm_log),
    Fmt("xes-etree", ".xes", G.event_log, _xes_w("ETREE"), _xes_r("ITERPARSE"), G.norm_log),
    Fmt("xes-etree.gz", ".xes.gz", G.event_log, _xes_w("ETREE"), _xes_r("ITERPARSE_MEM_COMPRESSED"), G.norm_log),
    Fmt("xes-df", ".xes", _df, _w_df, _r_df, lambda d: G.norm_df(d, ordered=True)),
    Fmt("pnml", ".pnml", lambda g: G.petri_net(g, arctypes=True), _w("write_pnml"), _r("read_pnml"), G.norm_net),
    Fmt("ptml", ".ptml", lambda g: G.tree(g, loop3=0.3), _w("write_ptml"), _r("read_ptml"), G.norm_tree),
    Fmt("bpmn", ".bpmn", G.bpmn, _w_bpmn, _r("read_bpmn"), G.norm_bpmn),
    Fmt("dfg", ".dfg", G.dfg, _w("write_dfg"), _r("read_dfg"), G.norm_dfg, torn=False),
    Fmt("ocel-json", ".jsonocel", G.ocel, _w("write_ocel_json"), _r("read_ocel_json"), N1),
    Fmt("ocel-xml", ".xmlocel", G.ocel, _w("write_ocel_xml"), _r("read_ocel_xml"), N1),
    Fmt("ocel-sqlite", ".sqlite", G.ocel, _w("write_ocel_sqlite"), _r("read_ocel_sqlite"), N1),
    Fmt("ocel-csv", ".csv", G.ocel, _w_csv, _r_csv, N1, torn=False, aux=".objects.csv"),
    Fmt("ocel2-json", ".json", lambda g: G.ocel(g, True), _w2json, _r("read_ocel2_json"), N2),
    Fmt("ocel2-xml", ".xml", lambda g: G.ocel(g, True), _w("write_ocel2_xml"), _r("read_ocel2_xml"), N2),
    Fmt("ocel2-sqlite", ".sqlite", lambda g: G.ocel(g, True), _w("write_ocel2_sqlite"), _r("read_ocel2_sqlite"), N2),
]
OC2 = lambda g: G.ocel(g, True)
# the same formats through the functions that choose by the extension, and a variant outside the simplified interface
MORE = [Fmt("ocel" + e, e, G.ocel, _w_any, _r_any, N1, torn=e != ".csv", aux=".objects.csv" if e == ".csv" else None)
        for e in (".jsonocel", ".xmlocel", ".csv", ".sqlite", ".JSONOCEL", ".XMLOCEL")] + \
       [Fmt("ocel2" + e, e, OC2, _w("write_ocel2"), _r("read_ocel2"), N2) for e in
        (".json", ".jsonocel", ".xml", ".xmlocel", ".sqlite", ".XML")] + \
       [Fmt("ocel2-json-typed", ".jsonocel", OC2, _w2json20, _r2json20, N2)]
BY = {f.name: f for f in ALL}
