"""C29: anonymised logs keep what is promised under any draw of the noise, and no count is published without noise."""
import collections
import contextlib
import datetime
import importlib.util
import io
import itertools
import math
import random
import sys
import types
import warnings

from dst.sim import Violation

PROPERTY = "C29"
RUNS = {"quick": 2500, "thorough": 100000}
RULE = ("one run = one log, one trace variant query (Laplace or SaCoFa) or one complete anonymisation (PRIPEL), with the draws of the "
        "noise decided by the simulator: constant noise, any noise, extreme noise; non-trivial when noise was drawn")
DISTINCT = "hash of the log, the parameters, the draws and the result"
REAL = ["pm4py.privacy, trace_variant_query (Laplace, SaCoFa), pripel with the matching of traces and the anonymisation of attributes",
        "the mechanisms of diffprivlib"]
STUB = ["numpy.random.laplace and numpy.random.choice: draws chosen by the simulator", "random numbers of diffprivlib: seeded, preferring extremes",
        "the package diffprivlib without its machine learning models, which do not import with the scikit-learn installed here"]
ASSUMPTIONS = ["activities do not contain the separators >>> and TRACE_END", "the statistical guarantee itself follows from the scale of the noise and "
               "from every count being noised; the distribution of the exponential mechanism is not claimed",
               "PRIPEL: some trace of the log has two events (it needs differences of timestamps)"]
UTC = datetime.timezone.utc
END = "TRACE_END"


# ------------------------------------------------------------------ seams
class Noise:
    """what numpy.random.laplace and numpy.random.choice return"""

    def __init__(self, sim, mode, c=0):
        import numpy as np
        self.sim, self.mode, self.c = sim, mode, c
        self.draws, self.scales, self.extremes = 0, set(), set()
        self.pickmode = sim.gen.pick(["first", "last", "any"])
        self.np = np
        f = sim.fault

        def one(loc, scale):
            self.draws += 1
            self.scales.add((float(loc), float(scale)))
            if self.mode == "constant":
                return loc + self.c + 0.25 * (1 if self.c > 0 else -1 if self.c < 0 else 0)
            k = f.pick([0, 0, 1, 1, 2, 3])
            sim.injected(["no-noise", "small-noise", "noise", "extreme-noise"][k])
            return loc + f.pick([-1, 1]) * [0.0, scale * f.frac(), 3 * scale * f.frac(), 8.0][k]

        def laplace(loc=0.0, scale=1.0, size=None):
            if size is None:
                return one(loc, scale)
            n = size if isinstance(size, int) else int(np.prod(size))
            return np.array([one(loc, scale) for _ in range(n)]).reshape(size)

        def choice(a, size=None, replace=True, p=None):
            a = np.arange(a) if isinstance(a, int) else np.asarray(a)
            ok = [i for i in range(len(a)) if p is None or p[i] > 0]
            i = {"first": ok[0], "last": ok[-1], "any": ok[f.int(0, len(ok) - 1)]}[self.pickmode]
            sim.injected("universe-chosen")
            self.extremes.add("first" if i == 0 else "last" if i == len(a) - 1 else "any")
            if len(a) == 1:
                self.extremes -= {"first"}
            return a[i]
        old = np.random.laplace, np.random.choice
        np.random.laplace, np.random.choice = laplace, choice
        sim.cleanups.append(lambda: (setattr(np.random, "laplace", old[0]), setattr(np.random, "choice", old[1])))


class Rng:
    """random numbers of diffprivlib"""

    def __init__(self, sim):
        import numpy as np
        self.own = random.Random(sim.rand.int(0, 2 ** 31 - 1))
        self.np, self.sim, self.extreme = np, sim, sim.gen.flag(0.5)

    def one(self):
        if self.extreme and self.own.random() < 0.4:
            self.sim.injected("extreme-noise")
            return self.own.choice([0.0, 1e-12, 0.5, 1 - 2 ** -53])
        return self.own.random()

    left = 10 ** 9

    def random(self, n=None):
        self.left -= 1
        if self.left < 0:
            raise Violation("never-returns", "300 draws of the noise rejected")
        return self.one() if n is None else self.np.array([self.one() for _ in range(n)])


def diffprivlib(sim):
    if "diffprivlib" not in sys.modules:
        m = types.ModuleType("diffprivlib")
        m.__spec__ = importlib.util.find_spec("diffprivlib")
        m.__path__ = list(m.__spec__.submodule_search_locations)
        sys.modules["diffprivlib"] = m
        import diffprivlib.mechanisms
    import diffprivlib.mechanisms.base as base
    old = base.check_random_state
    base.check_random_state = lambda *a, **k: Rng(sim)
    sim.cleanups.append(lambda: setattr(base, "check_random_state", old))
    from diffprivlib.mechanisms import LaplaceBoundedDomain as L
    orig = L.randomise

    def randomise(self, value):
        # rejection sampling inside [lower, upper]: never ends with a scale that is not a number
        if self._scale is None:
            self._scale = self._find_scale()
        sim.check(not math.isnan(self._scale), "never-returns", lambda: f"the noise in [{self.lower}, {self.upper}] for sensitivity "
                  f"{self.sensitivity} and epsilon {self.epsilon} has no scale: drawn again and again", 
                  key="shift-narrower-than-sensitivity" if self.upper - self.lower < self.sensitivity else "no-scale")
        self._rng.left = 300
        return orig(self, value)
    L.randomise = randomise
    sim.cleanups.append(lambda: setattr(L, "randomise", orig))


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


# ------------------------------------------------------------------ reference
def true_counts(traces):
    n = collections.Counter()
    for t in traces:
        for i in range(1, len(t) + 1):
            n[t[:i]] += 1
        n[t + (END,)] += 1
    return n


def relations(traces, acts):
    after = {a: [set(t[t.index(a) + 1:]) for t in traces if a in t] for a in acts}
    before = {a: [set(t[:len(t) - 1 - t[::-1].index(a)]) for t in traces if a in t] for a in acts}

    def rel(sets, b):
        k = sum(b in s for s in sets)
        return "N" if k == 0 else "A" if k == len(sets) else "S"
    return ({(a, b): rel(after[a], b) for a in acts for b in acts}, {(a, b): rel(before[a], b) for a in acts for b in acts})


def conforms(p, fol, pre, acts, firsts):
    if len(p) == 1:
        return p[0] in firsts
    done = p[-1] == END
    q = p[:-1] if done else p
    for a in set(q):
        aft, bef = set(q[q.index(a) + 1:]), set(q[:len(q) - 1 - q[::-1].index(a)])
        for b in acts:
            if b in aft and fol[a, b] == "N" or b in bef and pre[a, b] == "N":
                return False
            if done and fol[a, b] == "A" and b not in aft:
                return False
            # a may still come again, after b
            if pre[a, b] == "A" and b not in bef and (done or fol[a, a] == "N"):
                return False
    return True


def candidates(traces, k, p, c):
    """number of variants and prefixes that a query by prefixes draws noise for"""
    acts, n, m, level = {a for t in traces for a in t}, true_counts(traces), 0, [()]
    for i in range(k):
        new = []
        for s in level:
            for a in [*acts, END]:
                m += 1
                if max(0, n[s + (a,)] + c) >= p and a != END:
                    new.append(s + (a,))
        level = new
    return m


def reference(variant, traces, k, p, c, everything):
    acts = list(dict.fromkeys(a for t in traces for a in t))
    n = true_counts(traces)
    fol, pre = relations(traces, acts)
    firsts = {t[0] for t in traces if t}
    out = collections.Counter()
    level = [()]
    for i in range(1, k + 1):
        new = []
        for s in level:
            for a in acts + [END]:
                x = s + (a,)
                f = n[x]
                if variant == "LAPLACE" or everything or conforms(x, fol, pre, acts, firsts):
                    f = max(0, f + c)
                if variant == "LAPLACE":
                    keep = f >= p
                else:
                    keep = i == k or a == END or f >= p
                if not keep:
                    continue
                if a == END:
                    out[s] += f
                elif variant == "SACOFA" and i == k:
                    out[x] += f
                else:
                    new.append(x)
        level = new
    return +out


# ------------------------------------------------------------------ scenarios
def make(g, attrs=False, maxlen=4):
    from pm4py.objects.log.obj import Event, EventLog, Trace
    acts = ["a", "b c", "d"][:g.int(1, 3)]
    log = EventLog()
    t = datetime.datetime(2024, 1, 1, tzinfo=UTC)
    kinds = g.subset(["amount", "cost", "org:resource", "flag", "due", "secret", "partial"], 0.5) if attrs else []
    traces = []
    pool = [tuple(g.pick(acts) for _ in range(g.int(1, maxlen))) for _ in range(g.int(1, 3))]
    for i in range(g.int(1, 6)):
        tr = Trace()
        tr.attributes["concept:name"] = f"case{i}"
        if attrs and g.flag(0.3):
            tr.attributes["customer"] = g.pick(["x", "y"])
        t += datetime.timedelta(hours=g.int(0, 2))
        u = t
        seq = g.pick(pool)
        if attrs and i == 0 and len(seq) < 2:
            seq = seq + (g.pick(acts),)
        for a in seq:
            e = Event()
            e["concept:name"] = a
            e["time:timestamp"] = u
            for kname in kinds:
                e[kname] = {"amount": g.int(0, 5), "cost": g.pick([0.5, 2.25, 10.0]), "org:resource": g.pick(["ann", "bob", "eve"]),
                            "flag": g.flag(0.5), "due": u, "secret": g.pick(["s1", "s2"]), "partial": g.int(1, 3)}[kname]
                if kname == "partial" and g.flag(0.5):
                    del e._dict[kname]
            tr.append(e)
            u += datetime.timedelta(minutes=g.pick([0, 1, 30, 300]))
        log.append(tr)
        traces.append(seq)
    return log, traces, kinds


def cases(df):
    out = collections.OrderedDict()
    if len(df):
        for r in df.to_dict("records"):
            out.setdefault(r["case:concept:name"], []).append(r)
    return out


def ask(sim, variant, log, par, as_df):
    import pm4py
    from pm4py.algo.anonymization.trace_variant_query import algorithm as Q
    given = pm4py.convert_to_dataframe(log) if as_df else log
    try:
        with quiet():
            return "ok", Q.apply(given, variant=getattr(Q.Variants, variant), parameters=dict(par))
    except Violation:
        raise
    except Exception as e:
        return "raised", e


def query(sim):
    g = sim.gen
    diffprivlib(sim)
    sim.seed_random()
    log, traces, _ = make(g)
    variant = g.pick(["LAPLACE", "SACOFA"])
    eps = g.pick([1.0, 0.5, 2.0, 0.1])
    k, p = g.int(1, 5), g.pick([1, 2, 3])
    mode = g.pick(["constant", "constant", "any"])
    c = g.pick([0, 1, -1, 2, -2, 5]) if len({a for t in traces for a in t}) * k <= 8 else g.pick([0, -1, -2])
    if mode == "constant" and c >= p and len({a for t in traces for a in t}) ** k > 300:
        c = p - 1
    if mode == "any":
        k = min(k, 3)
    noise = Noise(sim, mode, c)
    par = {"epsilon": eps, "k": k, "p": p, "show_progress_bar": g.flag(0.2)}
    r, x = ask(sim, variant, log, par, g.flag(0.5))
    text = f"{variant} {par} {mode} {c} {noise.pickmode} {traces}"
    acts = {a for t in traces for a in t}
    if r == "raised":
        sim.check(isinstance(x, ValueError) and "empty" in str(x), "raised", lambda: f"{x!r} | {text}")
        got = collections.Counter()
    else:
        got = collections.Counter(tuple(e["concept:name"] for e in c) for c in cases(x).values())
        ids = list(cases(x))
        sim.check(len(ids) == len(set(map(str, ids))), "identifiers", lambda: f"{ids} | {text}")
    for v in got:
        sim.check(set(v) <= acts, "unknown-activity", lambda: f"{v} | {text}")
        sim.check(len(v) <= k, "too-long", lambda: f"{v} | {text}")
        sim.check(variant != "LAPLACE" or got[v] >= p, "below-the-threshold", lambda: f"{v} {got[v]} | {text}")
    # the strength of the noise, and one draw per published count
    sim.check(noise.scales <= {(0.0, 1 / eps)}, "scale-of-the-noise", lambda: f"{noise.scales} | {text}")
    n = true_counts(traces)
    sim.check(noise.draws >= len({v for v in got}) if variant == "LAPLACE" else True, "counts-without-noise", lambda: f"{noise.draws} draws | {text}")
    if mode == "constant" and (variant == "LAPLACE" or noise.extremes <= {noise.pickmode} and noise.pickmode != "any"):
        if variant == "LAPLACE":
            # a prefix that does not occur gets noise as well: otherwise its absence is published
            m = candidates(traces, k, p, c)
            sim.check(noise.draws >= m, "counts-without-noise", lambda: f"{noise.draws} draws for {m} prefixes | {text}")
        want = reference(variant, traces, k, p, c, variant == "SACOFA" and noise.pickmode == "last")
        empty = want.pop((), 0)
        sim.check(got == want, "result", lambda: f"too many {dict(got - want)}, missing {dict(want - got)} | {text}")
        sim.check(r == "ok" or not want, "raised", lambda: f"{x!r} | {text}")
    if mode == "constant" and c:
        # a count of the log is never published as it is
        for v in got:
            raw = n[v + (END,)] if len(v) < k or variant == "LAPLACE" else n[v]
            sim.check(raw == 0 or got[v] != raw, "count-without-noise", lambda: f"{v} occurs {raw} times and is published with {got[v]} | {text}")
    sim.ev(variant, r, sorted(got.items())[:5], noise.draws)
    sim.cover(text, sorted(got.items()), noise.draws)
    sim.nontrivial = noise.draws > 0


def anonymise(sim):
    import pandas as pd
    import pm4py
    g = sim.gen
    diffprivlib(sim)
    sim.seed_random()
    log, traces, kinds = make(g, attrs=True, maxlen=3)
    Noise(sim, "any")
    eps = g.pick([1.0, 0.5, 5.0])
    df = pm4py.convert_to_dataframe(log)
    how = g.pick(["public", "pripel", "blocklist"])
    before = df.copy(deep=True)
    qlog = None
    text = f"{how} eps={eps} {kinds} {traces}"
    block = None
    try:
        with quiet():
            if how == "public":
                res = pm4py.privacy.anonymize_differential_privacy(df, epsilon=eps, k=g.int(1, 3), p=g.int(1, 2))
            else:
                from pm4py.algo.anonymization.pripel import algorithm as P
                from pm4py.objects.log.obj import Event, EventLog, Trace
                acts = sorted({a for t in traces for a in t})
                qlog = EventLog()
                for i in range(g.int(1, 6)):
                    tr = Trace()
                    tr.attributes["concept:name"] = i
                    for a in (g.pick(traces) if g.flag(0.5) else tuple(g.pick(acts) for _ in range(g.int(1, 3)))):
                        e = Event()
                        e["concept:name"] = a
                        e["time:timestamp"] = datetime.datetime(1970, 1, 1, tzinfo=UTC)
                        tr.append(e)
                    qlog.append(tr)
                qdf = pm4py.convert_to_dataframe(qlog)
                par = {}
                if how == "blocklist":
                    block = g.subset(["secret", "amount", "org:resource"], 0.6)
                    par["blocklist"] = block
                res = P.apply(df, qdf, eps, parameters=par)
        r = "ok"
    except Violation:
        raise
    except Exception as e:
        r, res = "raised", e
    sim.ev(how, r, str(res)[:80] if r == "raised" else len(res))
    if r == "raised":
        empty = isinstance(res, ValueError) and "empty" in str(res)
        sim.check(empty and how == "public", "raised", lambda: f"{res!r} | {text}")
        sim.nontrivial = True
        sim.cover(text)
        return
    sim.check(df.equals(before) and list(df.columns) == list(before.columns), "input-changed", lambda: text)
    cs = cases(res)
    sim.check(sorted(map(str, cs)) == sorted(str(i) for i in range(len(cs))), "identifiers", lambda: f"{list(cs)} | {text}")
    acts = {a for t in traces for a in t}
    got = [tuple(e["concept:name"] for e in c) for c in cs.values()]
    if qlog is not None:
        want = [tuple(e["concept:name"] for e in t) for t in qlog]
        sim.check(got == want, "control-flow", lambda: f"{got} instead of {want} | {text}")
    sim.check(set(a for t in got for a in t) <= acts, "unknown-activity", lambda: f"{got} | {text}")
    vals = collections.defaultdict(set)
    for t in log:
        for e in t:
            for a, v in e.items():
                vals[a].add(v)
    cols = set(res.columns) - {"case:concept:name", "concept:name", "time:timestamp"}
    sim.check(cols <= set(kinds) - set(block or ()), "attributes", lambda: f"{cols} | {text}")
    for cid, c in cs.items():
        ts = [e["time:timestamp"] for e in c]
        sim.check(all(a <= b for a, b in zip(ts, ts[1:])), "timestamps-not-ordered", lambda: f"{cid} {[str(x) for x in ts]} | {text}")
        sim.check(all(x == x and x.tzinfo is not None for x in ts), "timestamp-missing", lambda: f"{cid} | {text}")
        for e in c:
            for a in cols:
                v = e.get(a)
                if v is None or v != v:
                    continue
                dom = vals[a]
                if any(isinstance(x, str) for x in dom) or any(isinstance(x, bool) for x in dom):
                    sim.check(v in dom or (isinstance(next(iter(dom)), bool) and v in (True, False)), "value-outside-domain", lambda: f"{a}={v!r} not in {dom} | {text}")
                else:
                    sim.check(min(dom) <= v <= max(dom), "value-outside-domain", lambda: f"{a}={v!r} not in [{min(dom)}, {max(dom)}] | {text}")
    sim.cover(text, got)
    sim.nontrivial = True


SCENARIOS = [("query", query, 3), ("anonymise", anonymise, 2)]
