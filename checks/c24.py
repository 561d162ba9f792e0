"""C24: token-based replay of a trace is a run of the net whose corrections are counted, and depends on nothing but trace and net."""
import collections
import math

from checks import c23
from dst import netref, seams
from dst.sim import Violation

PROPERTY = "C24"
RUNS = {"quick": 16000, "thorough": 250000}
RULE = ("one run = a net (free with weights, silent and duplicate transitions, or from a process tree), a log and one call of token-based replay "
        "or of a measure built on it, or the same replay in several processes, positions and formats; non-trivial when a trace has events")
DISTINCT = "hash of the net, the traces, the options and the verdicts"
REAL = ["pm4py.algo.conformance.tokenreplay (forward and backwards, diagnostics)", "fitness, precision and generalization based on it", "pm4py.conformance"]
STUB = ["identity hashes of places, transitions and arcs (memory addresses): seeded"]
ASSUMPTIONS = ["names of places and transitions are unique; activities contain no comma", "the heuristics that choose silent transitions are not claimed to be "
               "complete: a fitting trace may be judged unfit only in nets with silent or duplicate transitions",
               "stop at the first problem, the internal reduction mode: only independence of other traces and of the memory layout is claimed",
               "silent transitions do not make tokens without end (the nets are bounded under silent steps)"]
FT = "concept:name"


# ------------------------------------------------------------------ nets as data, built again in another memory layout
def describe(net, im, fm):
    return (sorted(p.name for p in net.places), sorted((t.name, t.label) for t in net.transitions),
            sorted((a.source.name, a.target.name, a.weight) for a in net.arcs),
            sorted((p.name, n) for p, n in im.items()), sorted((p.name, n) for p, n in fm.items()))


def build(d, seed, order=None):
    from pm4py.objects.petri_net.obj import PetriNet, Marking
    from pm4py.objects.petri_net.utils import petri_utils as pu
    seams.set_hash_seed(seed)
    net = PetriNet("n")
    pl = {n: PetriNet.Place(n) for n in d[0]}
    tr = {n: PetriNet.Transition(n, lab) for n, lab in d[1]}
    el = dict(pl)
    el.update(tr)
    net.places.update(pl.values())
    net.transitions.update(tr.values())
    for s, t, w in (d[2] if order is None else order(d[2])):
        pu.add_arc_from_to(el[s], el[t], net, weight=w)
    return net, Marking({pl[n]: k for n, k in d[3]}), Marking({pl[n]: k for n, k in d[4]})


def case(sim):
    g = sim.gen
    net, im, fm, ref = c23.a_net(g, dup=0.3)
    if net.name == "n":
        # silent transitions that make tokens for ever have no end; trees do not have them
        for t in ref.trans:
            if t.label is None and sum(w for _, w in ref.post[t]) > sum(w for _, w, _ in ref.pre[t]):
                t.label = "d"
    d = describe(net, im, fm)
    net, im, fm = build(d, sim.rand.int(0, 2 ** 31 - 1))
    ref = netref.Net(net)
    acts = sorted({ref.label[t] for t in ref.trans if ref.label[t] is not None} | {"a", "b"})
    traces = [c23.a_trace(g, acts, ref, im) for _ in range(g.int(1, 5))]
    return d, net, im, fm, ref, traces


def simple(ref):
    labs = [ref.label[t] for t in ref.trans]
    return None not in labs and len(set(labs)) == len(labs)


def play(ref, im, names_or_trans, by):
    """the token game of the activated transitions: marking, missing, per place counts; visible transitions may lack tokens"""
    m = collections.Counter({p: n for p, n in im.items() if n})
    missing = produced = consumed = 0
    per = collections.defaultdict(collections.Counter)
    bad, problems = [], []
    for t in names_or_trans:
        t = by[t] if isinstance(t, str) else t
        lack = {p: w - m[p] for p, w, _ in ref.pre[t] if m[p] < w}
        if lack:
            (bad if ref.label[t] is None else problems).append(t.name)
        for p, k in lack.items():
            missing += k
            m[p] += k
            per[p]["m"] += k
        for p, w, _ in ref.pre[t]:
            m[p] -= w
            consumed += w
            per[p]["c"] += w
        for p, w in ref.post[t]:
            m[p] += w
            produced += w
            per[p]["p"] += w
    return collections.Counter({p: n for p, n in m.items() if n}), missing, produced, consumed, per, bad, problems


def check_trace(sim, r, ref, im, fm, trace, by, what, flood=False, remaining=True, alien=False, backwards=False):
    """one verdict against the token game"""
    txt = lambda: f"{what} {trace}: {r}"
    labels = {ref.label[t] for t in ref.trans} - {None}
    acts = r["activated_transitions"]
    vis = tuple(x for x in (ref.label[by[t] if isinstance(t, str) else t] for t in acts) if x is not None)
    sim.check(vis == tuple(a for a in trace if a in labels), "events-not-replayed", txt)
    m, missing, produced, consumed, per, bad, problems = play(ref, im, acts, by)
    sim.check(flood or not bad, "silent-transition-not-enabled", txt)
    produced += sum(im.values())
    consumed += sum(fm.values())
    end = sum(max(0, n - m[p]) for p, n in fm.items())
    rest = sum(max(0, n - fm.get(p, 0)) for p, n in m.items())
    P, C, M, R = (r[k + "_tokens"] for k in ("produced", "consumed", "missing", "remaining"))
    sim.check(min(P, C, M, R) >= 0, "negative-count", txt)
    sim.check(P + M == C + R, "tokens-not-conserved", txt)
    sim.check(P == produced and C == consumed, "produced-or-consumed", lambda: f"p={produced} c={consumed}: {txt()}")
    if not flood:
        sim.check(M == missing + end and R == rest, "missing-or-remaining", lambda: f"m={missing + end} r={rest}: {txt()}")
        if "reached_marking" in r:
            got = {x if isinstance(x, str) else x.name: n for x, n in r["reached_marking"].items() if n}
            sim.check(got == {p.name: n for p, n in m.items()}, "reached-marking", txt)
        if not backwards:
            sim.check([getattr(t, "name", t) for t in r["transitions_with_problems"]] == problems, "transitions-with-problems", lambda: f"{problems}: {txt()}")
    fit = M == 0 and (R == 0 if remaining else True)
    if not remaining:
        fit = M - end == 0        # the final marking is not imposed
    if alien:
        fit = fit and all(a in labels for a in trace)
    sim.check(bool(r["trace_is_fit"]) == fit, "verdict", lambda: f"fit={fit}: {txt()}")
    f = 0.5 * (1 - M / C) + 0.5 * (1 - R / P) if C > 0 and P > 0 else 1.0
    sim.check(abs(r["trace_fitness"] - f) < 1e-12, "fitness", lambda: f"{f}: {txt()}")
    sim.check(-1e-12 <= r["trace_fitness"] <= 1 + 1e-12, "fitness", txt)
    return per, m


def eventually_enabled(ref, m):
    """labels of the visible transitions reachable by silent ones"""
    seen, todo, out = set(), [ref.key(m)], set()
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        if len(seen) > 200 or sum(n for _, n in k) > 25:
            return None
        for t in ref.enabled(k):
            if ref.label[t] is not None:
                out.add(t.name)
            else:
                todo.append(ref.fire(k, t))
    return out


def one_marking_per_transition(ref, m):
    """what is found when only the last marking is kept for each transition (known finding)"""
    by = lambda k: sorted(ref.enabled(k), key=lambda t: t.name)
    todo = by(ref.key(m))
    last = {t: ref.key(m) for t in todo}
    seen, out, i = set(), set(), 0
    while i < len(todo):
        t = todo[i]
        k = last[t]
        i += 1
        if (t, k) in seen:
            continue
        seen.add((t, k))
        if ref.label[t] is not None:
            out.add(t.name)
        elif t in ref.enabled(k):
            nxt = ref.fire(k, t)
            for t2 in by(nxt):
                todo.append(t2)
                last[t2] = nxt
    return out


def guarded(sim, f, what):
    try:
        return f()
    except Violation:
        raise
    except Exception as e:
        sim.check(False, "raised", f"{type(e).__name__}: {e} | {what}")


# ------------------------------------------------------------------ one replay
def replay(sim):
    import pm4py
    from pm4py.algo.conformance.tokenreplay import algorithm as T
    g = sim.gen
    d, net, im, fm, ref, traces = case(sim)
    key = g.pick([FT, FT, "act"])
    how = g.pick(["log", "df"])
    log = c23.log_of(traces, key, how)
    if how == "df":
        traces = [t for t in traces if t]
        if not traces:
            return
    par = {"show_progress_bar": False, "pm4py:param:activity_key": key}
    flood = g.flag(0.1)
    for k, v in (("disable_variants", True), ("return_names", True), ("consider_remaining_in_fitness", False), ("walk_through_hidden_trans", False),
                 ("try_to_reach_final_marking_through_hidden", False), ("consider_activities_not_in_model_in_fitness", True)):
        if g.flag(0.2):
            par[k] = v
    if flood:
        par["cleaning_token_flood"] = True
    if len(im) != 1 or len(fm) != 1:
        flood = False
        par.pop("cleaning_token_flood", None)
    what = f"{ {k: v for k, v in par.items() if k != 'show_progress_bar'} } {how} {d}"
    res = guarded(sim, lambda: T.apply(log, net, im, fm, parameters=par), what)
    by = {t.name: t for t in ref.trans}
    sim.check(len(res) == len(traces), "number-of-results", lambda: f"{len(res)} for {traces} {what}")
    for t, r in zip(traces, res):
        per, m = check_trace(sim, r, ref, im, fm, t, by, what, flood, par.get("consider_remaining_in_fitness", True),
                             "consider_activities_not_in_model_in_fitness" in par)
        now = {p: n for p, n in r["reached_marking"].items() if n} if "return_names" not in par else m
        en = eventually_enabled(ref, now)
        if en is not None and not flood:
            got = {getattr(x, "name", x) for x in r["enabled_transitions_in_marking"]}
            sim.check(got == en, "enabled-transitions", lambda: f"{got} instead of {en} {t} {what}",
                      key="one-marking-per-transition" if got < en and got == one_marking_per_transition(ref, now) else "other")
        if par.get("consider_remaining_in_fitness", True) and r["trace_is_fit"] and not flood:
            word = [a for a in t if a in {ref.label[x] for x in ref.trans}]
            sim.check(c23.alref.run_labels(ref, im, fm, [ref.label[by[x] if isinstance(x, str) else x] for x in r["activated_transitions"]]),
                      "fit-without-run", lambda: f"{t} {r} {what}")
            if simple(ref):
                sim.probe("fit decided exactly")
        if simple(ref) and not flood and par.get("consider_remaining_in_fitness", True):
            word = [a for a in t if a in {ref.label[x] for x in ref.trans}]
            ok = c23.alref.run_labels(ref, im, fm, word)
            if "consider_activities_not_in_model_in_fitness" in par:
                ok = ok and len(word) == len(t)
            sim.check(bool(r["trace_is_fit"]) == ok, "verdict-of-a-simple-net", lambda: f"in the language: {ok} {t} {r} {what}")
    sim.ev([(r["trace_is_fit"], r["missing_tokens"], r["remaining_tokens"]) for r in res])
    sim.cover(what, traces)
    sim.nontrivial = any(traces)


# ------------------------------------------------------------------ stability
def bare(r):
    return (bool(r["trace_is_fit"]), round(r["trace_fitness"], 12), [getattr(t, "name", t) for t in r["activated_transitions"]],
            [getattr(t, "name", t) for t in r["transitions_with_problems"]], sorted((getattr(p, "name", p), n) for p, n in r["reached_marking"].items() if n),
            sorted(getattr(t, "name", t) for t in r["enabled_transitions_in_marking"]), r["missing_tokens"], r["consumed_tokens"],
            r["remaining_tokens"], r["produced_tokens"])


def stability(sim):
    from pm4py.algo.conformance.tokenreplay import algorithm as T
    g = sim.gen
    d, net, im, fm, ref, traces = case(sim)
    traces = [t for t in traces if t] or [("a",)]
    opts = {k: v for k, v in (("consider_activities_not_in_model_in_fitness", True), ("stop_immediately_unfit", True), ("cleaning_token_flood", True),
                              ("consider_remaining_in_fitness", False)) if g.flag(0.2)}
    if len(im) != 1 or len(fm) != 1:
        opts.pop("cleaning_token_flood", None)
    text = f"{opts} {d} {traces}"

    def run(trs, how, seed, **more):
        n, i, f = build(d, seed, g.shuffle if hasattr(g, "shuffle") else None)
        par = dict(opts, show_progress_bar=False, **more)
        return [bare(r) for r in guarded(sim, lambda: T.apply(c23.log_of(trs, FT, how), n, i, f, parameters=par), text)]
    want = [run([t], "log", 1)[0] for t in traces]
    for k in range(g.int(1, 3)):
        seed = sim.rand.int(0, 2 ** 31 - 1)
        sim.injected("other-memory-layout")
        order = list(range(len(traces)))
        if g.flag(0.5):
            order = [g.int(0, len(traces) - 1) for _ in range(g.int(1, 6))]
            sim.injected("other-history")
        how = g.pick(["log", "df"])
        more = {k: True for k in ("disable_variants", "return_names") if g.flag(0.3)}
        got = run([traces[i] for i in order], how, seed, **more)
        sim.check(got == [want[i] for i in order], "depends-on-more-than-trace-and-net",
                  lambda: next(f"{traces[i]}: {a} | alone: {want[i]} | {how} {more} {order} {text}" for a, i in zip(got, order) if a != want[i]))
    sim.ev([w[:2] for w in want])
    sim.cover(text)
    sim.nontrivial = True


# ------------------------------------------------------------------ counts per place and transition
def places(sim):
    from pm4py.algo.conformance.tokenreplay import algorithm as T
    g = sim.gen
    d, net, im, fm, ref, traces = case(sim)
    traces = traces + [g.pick(traces) for _ in range(g.int(0, 2))]
    par = {"show_progress_bar": False, "enable_pltr_fitness": True}
    how = g.pick(["log", "log", "df"])
    if g.flag(0.4):
        par["disable_variants"] = g.flag(0.5)
    log = c23.log_of(traces, FT, how)
    if how == "df":
        traces = [t for t in traces if t]
        if not traces:
            return
    else:
        # attributes that change along the trace
        for t in log:
            for j, e in enumerate(t):
                e["n"] = j
    what = f"{par} {how} {d} {traces}"
    res, pf, tf, ne = guarded(sim, lambda: T.apply(log, net, im, fm, parameters=par), what)
    by = {t.name: t for t in ref.trans}
    want = collections.defaultdict(collections.Counter)
    und, over = collections.Counter(), collections.Counter()
    for t, r in zip(traces, res):
        per, m = check_trace(sim, r, ref, im, fm, t, by, what)
        for p, c in per.items():
            want[p] += c
        for p, n in im.items():
            want[p]["p"] += n
        for p, n in fm.items():
            want[p]["c"] += n
            want[p]["m"] += max(0, n - m[p])
        for p, n in m.items():
            want[p]["r"] += max(0, n - fm.get(p, 0))
    sim.check(set(pf) == set(net.places), "places", lambda: what)
    for p in pf:
        got = {k: pf[p][k] for k in "mrcp"}
        sim.check(got == {k: want[p][k] for k in "mrcp"}, "counts-of-a-place", lambda: f"{p.name}: {got} instead of {dict(want[p])} {what}")
        sim.check(got["p"] + got["m"] == got["c"] + got["r"], "tokens-not-conserved", lambda: f"{p.name}: {got} {what}")
    labels = {ref.label[t] for t in ref.trans} - {None}
    sim.check(set(ne) == {a for t in traces for a in t if a not in labels}, "activities-not-in-the-model", lambda: f"{set(ne)} {what}")
    sim.check(set(tf) == {t for t in ref.trans if ref.label[t] is not None}, "transitions", lambda: what)
    if how == "log" and par.get("disable_variants", True):
        # executions of a transition, with and without problem, and the attributes known at that moment
        for t in tf:
            for kind in ("fit_traces", "underfed_traces"):
                exp = collections.Counter()
                for tr, r in zip(log, res):
                    for at, ok in moments(ref, im, r, tr, by):
                        if at is not None and at[0] is t and ok == (kind == "fit_traces"):
                            exp[at[1]] += 1
                seen = {}
                for tr in log:
                    if tr in tf[t][kind]:
                        seen[id(tf[t][kind][tr])] = tf[t][kind][tr]
                got = collections.Counter(e["n"] for l in seen.values() for e in l)
                sim.check(got == exp, "executions-of-a-transition", lambda: f"{t.name} {kind}: {got} instead of {exp} {what}")
    sim.ev(sorted((p.name, sorted(want[p].items())) for p in want))
    sim.cover(what)
    sim.nontrivial = any(traces)


def moments(ref, im, r, trace, by):
    """((transition, index of the event), enabled) for each event in the model"""
    m = collections.Counter(im)
    labels = {ref.label[t] for t in ref.trans} - {None}
    idx = [j for j, e in enumerate(trace) if e[FT] in labels]
    k = 0
    out = []
    for t in r["activated_transitions"]:
        t = by[t] if isinstance(t, str) else t
        ok = all(m[p] >= w for p, w, _ in ref.pre[t])
        for p, w, _ in ref.pre[t]:
            m[p] = max(0, m[p] - w)
        for p, w in ref.post[t]:
            m[p] += w
        if ref.label[t] is not None:
            out.append(((t, idx[k]), ok))
            k += 1
    return out


# ------------------------------------------------------------------ measures
def measures(sim):
    import pm4py
    from pm4py.algo.conformance.tokenreplay import algorithm as T
    g = sim.gen
    d, net, im, fm, ref, traces = case(sim)
    traces = [t for t in traces if t] or [("a",)]
    how = g.pick(["log", "df"])
    log = c23.log_of(traces, FT, how)
    what = f"{how} {d} {traces}"
    res = guarded(sim, lambda: T.apply(log, net, im, fm, parameters={"show_progress_bar": False}), what)
    kind = g.pick(["fitness", "precision", "precision", "precision alignments", "generalization", "diagnostics"])
    if kind == "fitness":
        f = guarded(sim, lambda: pm4py.fitness_token_based_replay(log, net, im, fm), what)
        n = len(traces)
        tm, tc, tr, tp = (sum(r[k + "_tokens"] for r in res) for k in ("missing", "consumed", "remaining", "produced"))
        if tc and tp:
            exp = {"perc_fit_traces": 100 * sum(bool(r["trace_is_fit"]) for r in res) / n, "average_trace_fitness": sum(r["trace_fitness"] for r in res) / n,
                   "log_fitness": 0.5 * (1 - tm / tc) + 0.5 * (1 - tr / tp)}
            for k, v in exp.items():
                sim.check(abs(f[k] - v) < 1e-9, "log-fitness", lambda: f"{k}: {f[k]} instead of {v} {what}")
    elif kind == "generalization":
        x = guarded(sim, lambda: pm4py.generalization_tbr(log, net, im, fm), what)
        n = collections.Counter(getattr(t, "name", t) for r in res for t in r["activated_transitions"])
        v = 1 - sum(1 / math.sqrt(n[t.name]) if n[t.name] else 1 for t in ref.trans) / len(ref.trans)
        sim.check(abs(x - v) < 1e-9, "generalization", lambda: f"{x} instead of {v} {what}")
    elif kind == "precision alignments":
        x, y = (guarded(sim, lambda: pm4py.precision_alignments(c23.log_of(traces, FT, h), net, im, fm), what) for h in ("log", "df"))
        sim.check(-1e-9 <= x <= 1 + 1e-9 and abs(x - y) < 1e-9, "precision-of-log-and-dataframe", lambda: f"{x} and {y} {what}")
    elif kind == "precision":
        x = guarded(sim, lambda: pm4py.precision_token_based_replay(log, net, im, fm), what)
        y = guarded(sim, lambda: pm4py.precision_token_based_replay(c23.log_of(traces, FT, "log" if how == "df" else "df"), net, im, fm), what)
        sim.check(abs(x - y) < 1e-9, "precision-of-log-and-dataframe", lambda: f"{x} and {y} {what}")
        sim.check(-1e-9 <= x <= 1 + 1e-9, "precision", lambda: f"{x} {what}")
        if simple(ref):
            labels = {ref.label[t] for t in ref.trans}
            nxt, cnt = collections.defaultdict(set), collections.Counter()
            for t in traces:
                for i in range(len(t)):
                    nxt[t[:i]].add(t[i])
                    cnt[t[:i]] += 1
            at = ee = 0
            for p in cnt:
                m = ref.key(im)
                for a in p:
                    if a in labels:
                        m = next((ref.fire(m, t) for t in ref.enabled(m) if ref.label[t] == a), None)
                        if m is None:
                            break
                if m is None:
                    continue
                en = {ref.label[t] for t in ref.enabled(m)}
                at += len(en) * cnt[p]
                ee += len(en - nxt[p]) * cnt[p]
            v = 1 - ee / at if at else 1.0
            sim.check(abs(x - v) < 1e-9, "precision", lambda: f"{x} instead of {v} {what}")
    else:
        df = guarded(sim, lambda: pm4py.conformance_diagnostics_token_based_replay(log, net, im, fm, return_diagnostics_dataframe=True), what)
        rows = [(r["case_id"], bool(r["is_fit"]), r["missing"], r["remaining"], r["produced"], r["consumed"]) for r in df.to_dict("records")]
        log2 = pm4py.convert_to_event_log(log)
        exp = [(t.attributes["concept:name"], bool(r["trace_is_fit"]), r["missing_tokens"], r["remaining_tokens"], r["produced_tokens"], r["consumed_tokens"])
               for t, r in zip(log2, res)]
        sim.check(rows == exp, "diagnostics-dataframe", lambda: f"{rows} instead of {exp} {what}")
    sim.ev(kind)
    sim.cover(kind, what)
    sim.nontrivial = True


# ------------------------------------------------------------------ backwards
def backwards(sim):
    from pm4py.algo.conformance.tokenreplay import algorithm as T
    g = sim.gen
    d, net, im, fm, ref, traces = case(sim)
    log = c23.log_of(traces)
    what = f"{d}"
    res = guarded(sim, lambda: T.apply(log, net, im, fm, variant=T.Variants.BACKWARDS), f"{what} {traces}")
    by = {t.name: t for t in ref.trans}
    labs = [ref.label[t] for t in ref.trans if ref.label[t] is not None]
    dup = len(set(labs)) < len(labs)
    sim.check(len(res) == len(traces), "number-of-results", lambda: f"{len(res)} {what} {traces}")
    for t, r in zip(traces, res):
        if r["replay_interrupted"]:
            sim.check(not r["trace_is_fit"], "verdict", lambda: f"{t} {r} {what}")
            sim.check(dup, "interrupted", lambda: f"{t} {r} {what}")
            continue
        check_trace(sim, r, ref, im, fm, t, by, what, backwards=True)
    sim.ev([(r["trace_is_fit"], r["missing_tokens"], r["remaining_tokens"]) for r in res])
    sim.cover("backwards", what, traces)
    sim.nontrivial = any(traces)


SCENARIOS = [("replay", replay, 4), ("stability", stability, 3), ("places", places, 2), ("measures", measures, 3), ("backwards", backwards, 1)]
