"""C22: time limits of the alignments under any behaviour of the clock."""
from dst import alref, gen, seams
from checks import c23

PROPERTY = "C22"
RUNS = {"quick": 8000, "thorough": 100000}
RULE = ("one run = a log of <= 5 noisy traces aligned with a generated model under a limit per trace, a limit for the log, both or "
        "none, while a virtual clock ticks at every read and jumps forwards or backwards at seeded reads, followed by the evaluation "
        "of the fitness or the diagnostics of what came back; non-trivial when an alignment was interrupted or the clock jumped")
DISTINCT = "hash of the variant, the limits, the traces and which of them were interrupted"
REAL = ["pm4py.algo.conformance.alignments (petri_net with its five variants, decomposed)",
        "pm4py.algo.evaluation.replay_fitness.variants.alignment_based", "pm4py.util.lp with scipy"]
STUB = ["the clock (time.time): virtual, advances only when it is read, jumps at seeded reads",
        "identity hashes of places, transitions and arcs (hence the order of sets): seeded per run"]
ASSUMPTIONS = ["the search reads the clock regularly: time is counted in clock reads",
               "decomposed alignments are compared with the same call without limit only (no optimality claimed)"]


def limits(g):
    """(per trace, for the log)"""
    lim = lambda: g.weighted([(g.int(0, 12), 4), (g.int(10, 400), 4), (0.5, 1), (10 ** 9, 1)])
    k = g.weighted([("trace", 4), ("log", 3), ("both", 2), ("none", 2)])
    return lim() if k in ("trace", "both") else None, lim() if k in ("log", "both") else None


def a_clock(sim, forward=False):
    g = sim.gen
    jumps = {}
    for _ in range(g.weighted([(0, 4), (1, 3), (2, 2)])):
        r = g.int(1, 80)
        jumps[r] = g.pick([3600.0, 86400.0 * 365, 30.0]) * (1 if forward or g.flag(0.5) else -1)
    return seams.Clock(sim, tick=g.weighted([(1.0, 6), (0.25, 2), (0.0, 1), (7.0, 1)]), jumps=jumps)


def in_time(clock, lt, ll):
    """no limit was reached: the whole call took less than each (a third of the one for the log, of which every trace gets half the rest)"""
    took = clock.now - clock.start
    return not clock.jumps and (lt is None or took < lt) and (ll is None or 3 * took < ll)


def timed(sim, clock, fn):
    seams.set_clock(clock)
    try:
        return fn()
    except Exception as e:
        import traceback
        sim.check(False, "failed", lambda: f"{type(e).__name__}: {e}: " + traceback.format_exc()[-500:])
    finally:
        seams.set_clock(None)
        sim.simtime += abs(clock.now - clock.start)


def petri(sim):
    from pm4py.algo.conformance.alignments.petri_net import algorithm as A
    from pm4py.algo.evaluation.replay_fitness.variants import alignment_based as F
    P = A.Parameters
    g = sim.gen
    net, im, fm, ref, traces = c23.net_case(sim)
    vname = g.pick(c23.NV)
    disc = vname.endswith("DISCOUNTED_A_STAR")
    opts = {w: alref.best(ref, im, fm, w) for w in set(traces) | {()}}
    if opts[()] == -1 or None in opts.values():
        sim.probe("model without a run")
        return
    log = c23.log_of(traces)
    variant = A.Variants[vname]
    lt, ll = limits(g)
    par = {}
    if lt is not None:
        par[P.PARAM_MAX_ALIGN_TIME_TRACE] = lt
    if ll is not None:
        par[P.PARAM_MAX_ALIGN_TIME] = ll
    clock = a_clock(sim)
    what = f"{vname} limits {lt} {ll}"
    evaluated = g.flag(0.3)
    kept = dict(par)

    def go():
        res = A.apply(log, net, im, fm, variant=variant, parameters=par)
        reads = clock.reads
        fit = F.evaluate(res)
        diag = A.get_diagnostics_dataframe(log, res) if g.flag(0.3) else None
        return res, reads, fit, diag
    res, reads, fit, diag = timed(sim, clock, go)
    sim.check(par == kept, "parameters-changed", f"{what} {par}")
    sim.check(len(res) == len(traces), "alignments-missing", f"{what} {len(res)} for {len(traces)} traces")
    done = [(w, al) for w, al in zip(traces, res) if al is not None]
    for w, al in done:
        c23.check_net_alignment(sim, al, ref, im, fm, w, None if disc else opts[w], opts[()], what,
                                exact=vname == "VERSION_DIJKSTRA_NO_HEURISTICS", fitness="fitness" in al)
    back = any(j < 0 for j in clock.jumps.values())
    if (lt is None and ll is None) or (clock.tick == 0 and not clock.jumps and (ll or 1) > 0):
        sim.check(len(done) == len(res), "interrupted-without-limit", lambda: f"{what} {traces}")
        sim.check(all("fitness" in al for _, al in done), "fitness-missing", what)
    if in_time(clock, lt, ll):
        sim.check(len(done) == len(res), "interrupted-too-early", lambda: f"{what} {traces}: {clock.now - clock.start} s, tick {clock.tick}")
    nv = len(set(traces))
    if lt is not None and not clock.jumps and clock.tick > 0:
        # bwc of the log, then of every trace, and the alignment itself
        bound = (1 + 2 * nv) * (lt / clock.tick + 4) + 2 * nv + 2
        sim.check(reads <= bound, "limit-exceeded", lambda: f"{what}: {reads} reads of the clock for {nv} traces, tick {clock.tick}")
    # the fitness is the one of the traces with an alignment
    known = [al for _, al in done if "fitness" in al]
    want = sum(al["fitness"] for al in known) / len(known) if known else 0.0
    sim.check(abs(fit["averageFitness"] - want) < 1e-9, "wrong-average", lambda: f"{what}: {fit} for {known}")
    perc = 100.0 * sum(al["fitness"] == 1.0 for al in known) / len(known) if known else 0.0
    sim.check(abs(fit["percFitTraces"] - perc) < 1e-9, "wrong-average", lambda: f"{what}: {fit} for {known}")
    if diag is not None:
        got = {r["case_id"]: r for r in diag.to_dict("records")}
        for i, al in enumerate(res):
            r = got.get(f"case{i:03d}")
            if al is not None and "fitness" in al:
                sim.check(r is not None and abs(r["fitness"] - al["fitness"]) < 1e-9, "wrong-diagnostics", f"{what}: {r}")
            else:
                sim.check(r is None or not r["is_fit"], "wrong-diagnostics", f"{what}: {r}")
    nout = len(res) - len(done)
    if nout:
        sim.injected("time-limit", nout)
    sim.ev(vname, lt, ll, [al is None for al in res], reads)
    sim.cover(vname, lt, ll, traces, [al is None for al in res])
    sim.nontrivial = nout > 0 or any(r <= clock.reads for r in clock.jumps)


def listed(sim):
    """a list of variants, as the worker processes of the decomposed and log-wide alignments get it"""
    import importlib
    import pm4py.algo.conformance.alignments.petri_net.algorithm as A
    g = sim.gen
    net, im, fm, ref, traces = c23.net_case(sim)
    traces = list(dict.fromkeys(w for w in traces if w))
    vname = g.pick(c23.NV)
    mod = A.Variants[vname].value
    disc = vname.endswith("DISCOUNTED_A_STAR")
    opts = {w: alref.best(ref, im, fm, w) for w in traces}
    bwc = alref.best(ref, im, fm, ())
    if not traces or bwc in (None, -1) or None in opts.values():
        return
    lt, ll = limits(g)
    par = {}
    if lt is not None:
        par[A.Parameters.PARAM_MAX_ALIGN_TIME_TRACE] = lt
    if ll is not None:
        par[A.Parameters.PARAM_MAX_ALIGN_TIME] = ll
    kept = dict(par)
    clock = a_clock(sim)
    what = f"{vname} list, limits {lt} {ll}"
    res = timed(sim, clock, lambda: mod.apply_from_variants_list([(w, g.int(1, 3)) for w in traces], net, im, fm, parameters=par))
    sim.check(par == kept, "parameters-changed", f"{what} {par}")
    sim.check(set(res) == set(traces), "alignments-missing", f"{what} {list(res)} for {traces}")
    for w, al in res.items():
        if al is not None:
            c23.check_net_alignment(sim, al, ref, im, fm, w, None if disc else opts[w], bwc, what,
                                    exact=vname == "VERSION_DIJKSTRA_NO_HEURISTICS", fitness="fitness" in al)
    nout = sum(al is None for al in res.values())
    if in_time(clock, lt, ll):
        sim.check(not nout, "interrupted-too-early", lambda: f"{what} {traces}: {clock.now - clock.start} s, tick {clock.tick}")
    if ll is not None and clock.tick > 0 and not clock.jumps:
        # half of the time left for each trace, then one read at its start and a few until it notices
        sim.check(clock.reads <= (ll / clock.tick + 4) + 5 * len(traces), "limit-exceeded",
                  lambda: f"{what}: {clock.reads} reads of the clock for {len(traces)} traces, tick {clock.tick}")
    if nout:
        sim.injected("time-limit", nout)
    sim.ev(vname, lt, ll, traces, [al is None for al in res.values()])
    sim.cover("listed", vname, lt, ll, traces, [al is None for al in res.values()])
    sim.nontrivial = nout > 0 or any(r <= clock.reads for r in clock.jumps)


def one(sim):
    """one trace"""
    from pm4py.algo.conformance.alignments.petri_net import algorithm as A
    P = A.Parameters
    g = sim.gen
    net, im, fm, ref, traces = c23.net_case(sim)
    w = traces[0]
    vname = g.pick(c23.NV)
    disc = vname.endswith("DISCOUNTED_A_STAR")
    opt, bwc = alref.best(ref, im, fm, w), alref.best(ref, im, fm, ())
    if opt in (None, -1) or bwc in (None, -1):
        sim.probe("model without a run")
        return
    tr = c23.log_of([w])[0]
    lt = g.pick([0, 1, 2, 3, 5, 8, 13, 30, 100, 10 ** 9])
    clock = a_clock(sim)
    par = {P.PARAM_MAX_ALIGN_TIME_TRACE: lt}
    if g.flag(0.4):
        par[P.ENABLE_BEST_WORST_COST] = False
    al = timed(sim, clock, lambda: A.apply(tr, net, im, fm, variant=A.Variants[vname], parameters=par))
    if al is not None:
        c23.check_net_alignment(sim, al, ref, im, fm, w, None if disc else opt, bwc, f"{vname} limit {lt}",
                                exact=vname == "VERSION_DIJKSTRA_NO_HEURISTICS", fitness="fitness" in al)
    else:
        sim.injected("time-limit")
        sim.check(clock.tick > 0 or clock.jumps, "interrupted-too-early", f"{vname} {lt} {w}")
        sim.check(lt < 10 ** 9 and not in_time(clock, lt, None), "interrupted-too-early", f"{vname} {lt} {w}")
    if not clock.jumps and clock.tick > 0:
        sim.check(clock.reads <= 2 * (lt / clock.tick + 4), "limit-exceeded", lambda: f"{vname} limit {lt}: {clock.reads} reads")
    sim.ev(vname, lt, w, al is None)
    sim.cover(vname, lt, w, al is None, clock.reads)
    sim.nontrivial = al is None or bool(clock.jumps)


def decomposed(sim):
    from pm4py.algo.conformance.alignments.decomposed import algorithm as D
    from pm4py.algo.conformance.alignments.decomposed.variants import recompos_maximal as R
    from pm4py.algo.evaluation.replay_fitness.variants import alignment_based as F
    g = sim.gen
    net, im, fm, ref = c23.a_net(g, dup=0.0, free=0.0)
    acts = sorted({ref.label[t] for t in ref.trans if ref.label[t] is not None} | {"a", "b"})
    traces = [w for w in [c23.a_trace(g, acts, ref, im) for _ in range(g.int(1, 4))] if w]
    if not traces:
        return
    log = c23.log_of(traces)
    # both calls with the same identity hashes: the recomposition depends on the order of the components
    layout = sim.rand.int(0, 2 ** 31 - 1)
    seams.set_thread_seed(layout)
    free = D.apply(log, net, im, fm, parameters={})
    lt, ll = limits(g)
    par = {}
    if lt is not None:
        par[R.Parameters.PARAM_MAX_ALIGN_TIME_TRACE] = lt
    if ll is not None:
        par[R.Parameters.PARAM_MAX_ALIGN_TIME] = ll
    clock = a_clock(sim)
    what = f"decomposed limits {lt} {ll}"

    def go():
        seams.set_thread_seed(layout)
        res = D.apply(log, net, im, fm, parameters=par)
        return res, F.evaluate(res)
    res, fit = timed(sim, clock, go)
    sim.check(len(res) == len(traces), "alignments-missing", f"{what} {len(res)} for {len(traces)} traces")
    for w, al, want in zip(traces, res, free):
        if al is None and want is not None:
            break                                     # what follows an interruption may meet other components
        sim.check(al == want or al is not None and {"cost", "alignment"} <= set(al) and all(want.get(k) == v for k, v in al.items()), "wrong-alignment", lambda: f"{what} {w}: {al}, without limit {want}")
    # after an interruption only the figures are checked
    bwc = alref.best(ref, im, fm, ())
    for w, al in zip(traces, res):
        if al is not None and "fitness" in al and bwc not in (None, -1):
            want = 1.0 - int(al["cost"] // 10000) / (c23.dev(bwc) + len(w))
            sim.check(abs(al["fitness"] - want) < 1e-9, "wrong-fitness", lambda: f"{what} {w}: {al}, not {want}")
    if lt is None and ll is None:
        sim.check([al is None for al in res] == [al is None for al in free], "interrupted-without-limit", lambda: f"{what} {traces}")
    if in_time(clock, lt, ll):
        sim.check([al is None for al in res] == [al is None for al in free], "interrupted-too-early",
                  lambda: f"{what} {traces}: {clock.now - clock.start} s, tick {clock.tick}")
    known = [al for al in res if al is not None and "fitness" in al]
    want = sum(al["fitness"] for al in known) / len(known) if known else 0.0
    sim.check(abs(fit["averageFitness"] - want) < 1e-9, "wrong-average", lambda: f"{what}: {fit} for {known}")
    nout = sum(al is None for al in res)
    if nout:
        sim.injected("time-limit", nout)
    sim.ev(lt, ll, traces, [al is None for al in res])
    sim.cover("decomposed", lt, ll, traces, [al is None for al in res])
    sim.nontrivial = nout > 0 or any(r <= clock.reads for r in clock.jumps)


SCENARIOS = [("petri", petri, 6), ("listed", listed, 2), ("one", one, 3), ("decomposed", decomposed, 3)]
