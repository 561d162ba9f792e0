"""generators of pm4py objects and their normal forms (plain tuples, independent of pm4py's equality)"""
import datetime

UTC = datetime.timezone.utc
BASE = datetime.datetime(2021, 3, 1, 12, tzinfo=UTC)
MARKUP = ["<a>", "x & y", "say \"hi\"", "it's", "a > b < c", "&amp;", "]]>", "\"'", "<event>", "</trace>", "/", "a=b"]
UNI = ["é", "漢字", "😀x", "ß\u00a0", "Ω≈", "\u2028", "naïve—", "a\u0301"]
WS = ["two  words", "tab\there", "line\nbreak", " lead", "trail "]


def word(g, hard=0.35, ws=False, prefix=""):
    if g.bulk and g.flag(g.bulk):      # so that a file takes several writes
        n = g.pick([700, 3000, 9000])
        return prefix + "-".join(str(i) for i in range(n // 4))
    if not g.flag(hard):
        return prefix + g.pick(["A", "B", "C", "D", "pay", "ship order", "x_1"])
    pools = [MARKUP, UNI] + ([WS] if ws else [])
    return prefix + "".join(g.pick(g.pick(pools)) for _ in range(g.int(1, 3)))


def when(g, offsets=True):
    t = BASE + datetime.timedelta(seconds=g.int(0, 10 ** 6))
    if g.flag(0.5):
        t = t.replace(microsecond=g.int(0, 999) * 1000)
    if offsets and g.flag(0.15):
        t = t.astimezone(datetime.timezone(datetime.timedelta(minutes=g.pick([60, 120, -300, 330, -570, 840]))))
    return t


def scalar(g, ws=True):
    k = g.pick(["str", "int", "float", "bool", "date"])
    if k == "str":
        return word(g, 0.6, ws) if not g.flag(0.05) else ""
    if k == "int":
        return g.pick([0, 1, -1, 7, 2 ** 40])
    if k == "float":
        return g.pick([0.0, 1.0, -2.5, 1e-9, 1.7e300, 0.1])
    if k == "bool":
        return g.flag(0.5)
    return when(g)


def nested(g, depth):
    """an attribute value: scalar, nested attribute or list"""
    if depth > 0 and g.flag(0.3):
        if g.flag(0.5):
            return {"value": scalar(g), "children": {f"n{i}" + word(g, 0.3): nested(g, depth - 1)
                                                     for i in range(g.int(1, 3))}}
        return {"value": None, "children": [(g.pick(["k", "k2", "<k>"]), nested(g, depth - 1))
                                            for i in range(g.int(1, 3))]}
    return scalar(g)


def event_log(g, depth=2, meta=True, ntr=(1, 4), nev=(0, 4), hard=True, offsets=True):
    from pm4py.objects.log.obj import EventLog, Trace, Event
    log = EventLog()
    h = 0.35 if hard else 0.0
    if meta:
        for i in range(g.int(0, 2)):
            log.extensions[f"E{i}" + word(g, h)] = {"prefix": f"p{i}", "uri": "http://x/" + g.pick(["a.xesext", "a?b=1&c=2"])}
        for i in range(g.int(0, 2)):
            keys = [g.pick(["concept:name", "lifecycle:transition", "org:group", "two words"]) for _ in range(g.int(1, 2))]
            log.classifiers[f"C{i}" + word(g, h if hard else 0).replace("'", "")] = keys
        for i in range(g.int(0, 2)):
            log.attributes[f"l{i}" + word(g, h)] = nested(g, depth)
        for sc in ["trace", "event"][:g.int(0, 2)]:
            log.omni_present[sc] = {f"g{i}" + word(g, h): nested(g, depth) for i in range(g.int(1, 2))}
    for c in range(g.int(*ntr)):
        tr = Trace()
        tr.attributes["concept:name"] = f"c{c}" + (word(g, 0.5) if hard else "")
        if meta:
            for i in range(g.int(0, 2)):
                tr.attributes[f"t{i}" + word(g, h)] = nested(g, depth)
        t = when(g, offsets)
        for e in range(g.int(*nev)):
            t = t + datetime.timedelta(seconds=g.int(0, 3) * 37)
            ev = Event({"concept:name": word(g, h), "time:timestamp": t})
            for i in range(g.int(0, 2)):
                ev[f"a{i}" + (word(g, 0.3) if g.flag(0.3) and hard else "")] = nested(g, depth)
            tr.append(ev)
        log.append(tr)
    return log


def norm_value(v):
    if isinstance(v, dict) and set(v) == {"value", "children"}:
        ch = v["children"]
        if isinstance(ch, dict):
            return ("nested", norm_value(v["value"]), tuple(sorted((k, norm_value(x)) for k, x in ch.items())))
        return ("list", None, tuple((k, norm_value(x)) for k, x in ch))
    if isinstance(v, datetime.datetime):
        t = v if v.tzinfo is not None else v.replace(tzinfo=UTC)
        return ("date", t.astimezone(UTC).strftime("%Y-%m-%d %H:%M:%S.%f"))
    if isinstance(v, bool):
        return ("bool", v)
    if isinstance(v, int):
        return ("int", v)
    if isinstance(v, float):
        return ("float", repr(v))
    if v is None:
        return ("none",)
    if isinstance(v, str):
        return ("str", v)
    return (type(v).__name__, str(v))


def norm_attrs(d):
    return tuple(sorted((k, norm_value(v)) for k, v in d.items()))


def norm_log(log, flat=False):
    traces = tuple((norm_attrs(t.attributes), tuple(norm_attrs(dict(e)) for e in t)) for t in log)
    meta = (tuple(sorted((k, tuple(sorted(v.items()))) for k, v in log.extensions.items())),
            tuple(sorted((k, tuple(v)) for k, v in log.classifiers.items())),
            norm_attrs(log.attributes),
            tuple(sorted((k, norm_attrs(v)) for k, v in log.omni_present.items())))
    return (meta, traces)


def first_diff(a, b, path=""):
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_diff(x, y, f"{path}/{i}")
    return f"at {path or '/'}: {a!r:.300} vs {b!r:.300}"


# ------------------------------------------------------------------ Petri nets
def petri_net(g, hard=0.3, arctypes=False):
    from pm4py.objects.petri_net.obj import PetriNet, Marking, ResetNet, InhibitorNet, ResetInhibitorNet
    from pm4py.objects.petri_net.utils import petri_utils as pu
    net = PetriNet("net" + word(g, hard))
    pl = [PetriNet.Place(f"p{i}" + word(g, hard * 0.5)) for i in range(g.int(1, 4))]
    tr = [PetriNet.Transition(f"t{i}", None if g.flag(0.25) else word(g, hard)) for i in range(g.int(1, 4))]
    net.places.update(pl)
    net.transitions.update(tr)
    types = g.weighted([([], 4), (["reset"], 1), (["inhibitor"], 1), (["reset", "inhibitor"], 2)]) if arctypes else []
    if "reset" in types and "inhibitor" in types:
        net = ResetInhibitorNet(net.name, net.places, net.transitions, net.arcs)
    elif types:
        net = (ResetNet if types[0] == "reset" else InhibitorNet)(net.name, net.places, net.transitions, net.arcs)
    for t in tr:
        for p in g.subset(pl, 0.5):
            ty = g.pick([None] + types) if types else None
            pu.add_arc_from_to(p, t, net, weight=1 if ty else g.pick([1, 1, 2, 3]), type=ty)
        for p in g.subset(pl, 0.5):
            pu.add_arc_from_to(t, p, net, weight=g.pick([1, 1, 2]))
    im = Marking({p: g.int(1, 3) for p in g.subset(pl, 0.4)})
    fm = Marking({p: g.int(1, 3) for p in g.subset(pl, 0.4)})
    if arctypes and g.flag(0.5):
        _net_extras(g, net, pl, tr, hard)
    return net, im, fm


def _box(g):
    return ((g.pick([0.0, 12.5, -3.25]), float(g.int(0, 900))), (g.pick([20.0, 0.125]), float(g.int(1, 90))))


def _net_extras(g, net, pl, tr, hard):
    """what PNML expresses beyond the graph: names, layout, stochastic distributions, data"""
    from pm4py.objects.petri_net import properties as pp
    from pm4py.objects.random_variables.random_variable import (RandomVariable, Normal, Uniform, Exponential, LogNormal, Gamma,
                                                                Deterministic, Constant0)
    from pm4py.util import constants as c
    for x in pl + tr:
        if g.flag(0.3):
            x.properties[c.LAYOUT_INFORMATION_PETRI] = _box(g)
    for p in pl:
        if g.flag(0.3):
            p.properties[c.PLACE_NAME_TAG] = word(g, hard)
    stochastic, data = g.flag(0.5), g.flag(0.5)
    for t in tr:
        if stochastic and g.flag(0.7):
            r = RandomVariable()
            r.random_variable = g.pick([
                lambda a, b, c: Normal(a, b), lambda a, b, c: Uniform(a, b), lambda a, b, c: Exponential(0, a),
                lambda a, b, c: LogNormal(a, b, c), lambda a, b, c: Gamma(a, b, c), lambda a, b, c: Deterministic(a),
                lambda a, b, c: Constant0()])(*(float(g.pick([1, 2, 0.5, 4])) for _ in range(3)))
            r.set_weight(g.pick([0.0, 1.0, 2.5, 1 / 3]))
            r.set_priority(g.pick([0, 1, 7]))
            t.properties[c.STOCHASTIC_DISTRIBUTION] = r
        if data and g.flag(0.6):
            if g.flag(0.6):
                t.properties[pp.TRANS_GUARD] = g.pick(["x > 1", "x < 3 && y != \"a\"", "(x)", "cost >= 2"])
            for key in (pp.READ_VARIABLE, pp.WRITE_VARIABLE):
                if g.flag(0.5):
                    t.properties[key] = [word(g, hard) for _ in range(g.int(1, 3))]
    if data and g.flag(0.7):
        net.properties[pp.VARIABLES] = [{"type": g.pick(["java.lang.String", "java.lang.Long"]), "name": word(g, hard)}
                                        for _ in range(g.int(1, 3))]


def norm_net(x):
    from pm4py.objects.petri_net.obj import PetriNet
    net, im, fm = x

    from pm4py.objects.petri_net.obj import ResetNet, InhibitorNet
    from pm4py.objects.petri_net import properties as pp
    from pm4py.util import constants as c

    def kind(a):
        n = type(a).__name__
        return n

    def box(x):
        b = x.properties.get(c.LAYOUT_INFORMATION_PETRI)
        return repr(b and tuple(tuple(float(v) for v in y) for y in b))

    def stoch(t):
        r = t.properties.get(c.STOCHASTIC_DISTRIBUTION)
        if r is None:
            return ""
        v = r.random_variable
        return (r.get_distribution_type(), repr(r.get_weight()), repr(r.get_priority()),
                repr(sorted((k, x) for k, x in vars(v).items() if k not in ("weight", "priority"))))

    def data(t):
        return tuple(repr(t.properties.get(k)) for k in (pp.TRANS_GUARD, pp.READ_VARIABLE, pp.WRITE_VARIABLE))
    kinds = {kind(a) for a in net.arcs}     # a net with special arcs must be of the class whose rules respect them
    return (tuple(sorted((p.name, p.properties.get(c.PLACE_NAME_TAG, p.name), box(p)) for p in net.places)),
            tuple(sorted((t.name, repr(t.label), box(t), stoch(t), data(t)) for t in net.transitions)),
            repr(net.properties.get(pp.VARIABLES)),
            (isinstance(net, ResetNet) or "ResetArc" not in kinds, isinstance(net, InhibitorNet) or "InhibitorArc" not in kinds),
            tuple(sorted((isinstance(a.source, PetriNet.Place), a.source.name, a.target.name, a.weight, kind(a)) for a in net.arcs)),
            tuple(sorted((p.name, n) for p, n in (im or {}).items())),
            tuple(sorted((p.name, n) for p, n in (fm or {}).items())))


# ------------------------------------------------------------------ process trees
def tree(g, depth=3, hard=0.2, ops=("->", "X", "+", "*", "O"), tau=0.2, labels=None, loop3=0.0):
    from pm4py.objects.process_tree.obj import ProcessTree, Operator
    if depth == 0 or g.flag(0.35):
        if g.flag(tau):
            return ProcessTree()
        return ProcessTree(label=g.pick(labels) if labels else word(g, hard))
    op = Operator(g.pick(ops))
    n = (3 if loop3 and g.flag(loop3) else 2) if op is Operator.LOOP else g.int(1, 3)
    t = ProcessTree(operator=op)
    for _ in range(n):
        c = tree(g, depth - 1, hard, ops, tau, labels, loop3)
        c.parent = t
        t.children.append(c)
    return t


def norm_tree(t, commutative=True):
    ch = [norm_tree(c, commutative) for c in t.children]
    op = t.operator.value if t.operator is not None else None
    if op == "*" and len(ch) == 3 and ch[2] == (None, None, ()):
        ch = ch[:2]
    elif op == "*" and len(ch) == 3:        # do, redo, exit
        return ("->", None, (("*", None, tuple(ch[:2])), ch[2]))
    if commutative and op in ("X", "+", "O"):
        ch.sort(key=repr)
    return (op, t.label, tuple(ch))


# ------------------------------------------------------------------ BPMN
def bpmn(g, hard=0.3):
    from pm4py.objects.bpmn.obj import BPMN
    b = BPMN()
    B = BPMN
    D = B.Gateway.Direction
    rich = g.flag(0.5)
    for proc in ([None] if not (rich and g.flag(0.4)) else ["pr1", "pr<2>"]):
        nodes = [B.StartEvent(name="", process=proc), B.EndEvent(name="", process=proc)]
        nodes += [B.Task(name=word(g, hard).replace("\n", " "), process=proc) for _ in range(g.int(1, 4))]
        for _ in range(g.int(0, 3)):
            nodes.append(g.pick([B.ExclusiveGateway, B.ParallelGateway, B.InclusiveGateway])(
                gateway_direction=g.pick([D.DIVERGING, D.CONVERGING, D.UNSPECIFIED]), process=proc))
        for _ in range(g.int(0, 2) if rich else 0):
            nodes.append(g.pick([B.IntermediateCatchEvent, B.NormalIntermediateThrowEvent, B.BoundaryEvent, B.SubProcess])(
                name=word(g, hard).replace("\n", " "), process=proc))
        for x in nodes:
            b.add_node(x)
            if rich and g.flag(0.4):
                x.set_x(float(g.int(-50, 900)))
                x.set_y(g.int(-50, 900) / 4)
                x.set_width(g.pick([100, 30.5]))
                x.set_height(g.pick([60, 1.25]))
        flows = []
        for x in nodes[2:]:
            for y in g.subset([nodes[1]] + nodes[2:], 0.4):
                if x is not y:
                    flows.append(B.SequenceFlow(x, y, name=g.pick(["", "f", "<g>"]), process=proc))
        flows.append(B.SequenceFlow(nodes[0], g.pick(nodes[2:]), process=proc))
        for f in flows:
            b.add_flow(f)
            if rich and g.flag(0.4):
                f.del_waypoints()
                for _ in range(g.int(1, 3)):
                    f.add_waypoint((float(g.int(0, 500)), g.int(0, 500) / 8))
    return b


def norm_bpmn(b):
    def kind(x):
        return type(x).__name__.replace("Normal", "")
    lay = b.get_layout()

    def box(x):
        y = lay.get(x)
        return tuple(float(v) for v in (y.get_x(), y.get_y(), y.get_width(), y.get_height()))
    procs = {}
    for x in b.get_nodes():
        procs.setdefault(x.get_process(), []).append(x.get_id())
    fl = {}
    for f in b.get_flows():
        fl.setdefault(f.get_process(), []).append((f.get_source().get_id(), f.get_target().get_id(), f.get_name()))
    return (tuple(sorted((x.get_id(), kind(x), x.get_name(), box(x),
                          x.get_gateway_direction().value if hasattr(x, "get_gateway_direction") else "") for x in b.get_nodes())),
            tuple(sorted((f.get_source().get_id(), f.get_target().get_id(), f.get_name(),
                          tuple((float(x), float(y)) for x, y in lay.get(f).get_waypoints())) for f in b.get_flows())),
            tuple(sorted(tuple(sorted(x)) for x in procs.values())),
            tuple(sorted(tuple(sorted(x)) for x in fl.values())))


# ------------------------------------------------------------------ DFG
def dfg(g, hard=0.3):
    acts = [f"{i}" + word(g, hard).replace("\u2028", "").strip() for i in range(g.int(1, 5))]
    d = {(a, b): g.int(1, 9) for a in acts for b in acts if g.flag(0.35)}
    sa = {a: g.int(1, 9) for a in (g.subset(acts, 0.4) or [acts[0]])}
    ea = {a: g.int(1, 9) for a in (g.subset(acts, 0.4) or [acts[-1]])}
    return d, sa, ea


def norm_dfg(x):
    return tuple(tuple(sorted((repr(k), int(v)) for k, v in d.items())) for d in x)


# ------------------------------------------------------------------ object-centric logs
def ocel(g, v2=False, hard=0.3, e2e=False, sparse=True):
    import pandas as pd
    from pm4py.objects.ocel.obj import OCEL
    types = [f"T{i}" for i in range(g.int(1, 3))]
    objs = [(f"{t}-{k}" + word(g, hard), t) for t in types for k in range(g.int(1, 3))]
    evs, rels, used = [], [], set()
    t = 0
    n = g.int(1, 6)
    oattr = {ty: g.subset(["oa", "ob", "oc"], 0.6) for ty in types}
    acts = [f"act{i} " + word(g, hard) for i in range(g.int(1, 3))]
    eattr = {a: g.subset(["ea", "eb"], 0.6) for a in acts}
    vtype = {k: g.pick(["str", "float", "int"]) for k in ["oa", "ob", "oc", "ea", "eb"]}

    def val(k):
        return {"str": lambda: "v" + word(g, hard), "float": lambda: g.pick([0.5, -3.25, 1e6]), "int": lambda: g.int(1, 99)}[vtype[k]]()

    for i in range(n):
        t += g.int(0, 100)
        rel = g.subset(objs, 0.4) or [g.pick(objs)]
        if i == n - 1:
            rel = rel + [o for o in objs if o not in used and o not in rel]
        used.update(rel)
        a = g.pick(acts)
        ts = BASE + datetime.timedelta(seconds=t)
        eid = f"e{i}" + word(g, hard)
        row = {"ocel:eid": eid, "ocel:activity": a, "ocel:timestamp": ts}
        for k in eattr[a]:
            if not (sparse and g.flag(0.3)):
                row[k] = val(k)
        evs.append(row)
        for o, ot in rel:
            r = {"ocel:eid": eid, "ocel:activity": a, "ocel:timestamp": ts, "ocel:oid": o, "ocel:type": ot}
            if v2:
                r["ocel:qualifier"] = "q" + word(g, hard)
            rels.append(r)
    orows, changes = [], []
    for o, ot in objs:
        row = {"ocel:oid": o, "ocel:type": ot}
        for k in oattr[ot]:
            if not (sparse and g.flag(0.3)):
                row[k] = val(k)
                if v2 and g.flag(0.3):
                    changes.append({"ocel:oid": o, "ocel:type": ot, "ocel:timestamp": BASE + datetime.timedelta(seconds=g.int(1, 500)),
                                    "ocel:field": k, k: val(k)})
        orows.append(row)
    kw = {}
    if v2:
        o2o = [{"ocel:oid": o, "ocel:oid_2": p, "ocel:qualifier": "r" + word(g, hard)} for o, _ in objs for p, _ in objs if o != p and g.flag(0.15)]
        kw["o2o"] = pd.DataFrame(o2o) if o2o else None
        kw["object_changes"] = pd.DataFrame(changes) if changes else None
    return OCEL(events=pd.DataFrame(evs), objects=pd.DataFrame(orows), relations=pd.DataFrame(rels),
                globals={"ocel:global-log": {}, "ocel:global-event": {}, "ocel:global-object": {}}, **kw)


def _cell(v):
    import pandas as pd
    import numpy as np
    if v is None or v is pd.NaT or (isinstance(v, float) and v != v):
        return None
    if isinstance(v, (datetime.datetime, np.datetime64)):
        t = pd.Timestamp(v)
        t = t.tz_localize("UTC") if t.tzinfo is None else t.tz_convert("UTC")
        return ("ts", t.strftime("%Y-%m-%d %H:%M:%S.%f"))
    if isinstance(v, (bool, np.bool_)):
        return ("bool", bool(v))
    if isinstance(v, (int, float, np.integer, np.floating)):
        return ("num", float(v))
    return ("str", str(v))


def norm_df(df, cols=None, ordered=False, drop=()):
    if df is None or len(df) == 0:
        return ()
    rows = []
    for r in df.to_dict("records"):
        row = []
        for k, v in r.items():
            if (cols is not None and k not in cols) or k in drop:
                continue
            c = _cell(v)
            if c is not None:
                row.append((k, c))
        rows.append(tuple(sorted(row)))
    return tuple(rows) if ordered else tuple(sorted(rows, key=repr))


def norm_ocel(oc, v2=False):
    r = [norm_df(oc.events), norm_df(oc.objects),
         norm_df(oc.relations, ["ocel:eid", "ocel:oid", "ocel:type", "ocel:activity", "ocel:timestamp"] +
                 (["ocel:qualifier"] if v2 else []))]
    if v2:
        r += [norm_df(oc.o2o), norm_df(oc.object_changes, drop=("@@cumcount",))]
    return tuple(r)
