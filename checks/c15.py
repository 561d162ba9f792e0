"""C15: every simulated case is a complete run with consistent times; the simulation ends and leaves no thread."""
from checks import c14

PROPERTY = "C15"
RUNS = {"quick": 3200, "thorough": 60000}
RULE, DISTINCT, REAL, STUB, ASSUMPTIONS = c14.RULE, c14.DISTINCT, c14.REAL, c14.STUB, c14.ASSUMPTIONS


def judge(sim, c):
    O = c["V"].Outputs
    log, out = c["log"], c["out"]
    sim.check(len(log) <= c["n"], "too-many-cases", f"{len(log)} for {c['n']}")
    if c["net"].properties["dst-simple"] and not c["jumps"] and c["tmo"] >= 3000 and c["scale"] >= 864000:
        # cases that follow one another along a line cannot block each other for ever
        sim.check(len(log) == c["n"], "cases-never-end", f"{len(log)} of {c['n']} cases within the time limit")
        sim.probe("all-cases-must-end")
    lab = {t.label: t for t in c["net"].transitions if t.label is not None}
    times = []
    for k, tr in enumerate(log):
        sim.check(replayable(c, [e["concept:name"] for e in tr]), "not-a-run",
                  lambda: f"{[e['concept:name'] for e in tr]} is no complete run of the net")
        ts = [e["time:timestamp"].timestamp() for e in tr]
        sim.check(all(a <= b + 1e-5 for a, b in zip(ts, ts[1:])), "time-goes-back", f"{ts}")
        # the k-th remaining case is at least the k-th arrival
        sim.check(not ts or ts[0] >= c14.START + k * c["ratio"] - 1e-5, "before-its-arrival", f"case {k}: {ts[:1]}")
        times.append(ts)
    ex = [t[-1] - t[0] if t else 0 for t in times]
    got = list(out[O.OUTPUT_CASES_EX_TIME.value])
    sim.check(len(ex) == len(got) and all(abs(a - b) < 1e-4 for a, b in zip(sorted(ex), sorted(got))), "wrong-case-times",
              lambda: f"reported {got}, traces {ex}")
    if ex:
        s = sorted(ex)
        med = s[len(s) // 2] if len(s) % 2 else (s[len(s) // 2 - 1] + s[len(s) // 2]) / 2
        sim.check(abs(out[O.OUTPUT_MEDIAN_CASES_EX_TIME.value] - med) < 1e-4, "wrong-median", "")
    allt = [x for t in times for x in t]
    if allt:
        tot = max(allt) - min(allt)
        sim.check(abs(out[O.OUTPUT_TOTAL_CASES_TIME.value] - tot) < 1e-4, "wrong-total-time",
                  lambda: f"{out[O.OUTPUT_TOTAL_CASES_TIME.value]} reported, events span {tot}")
    sim.check(out[O.OUTPUT_CASE_ARRIVAL_RATIO.value] == c["ratio"], "wrong-ratio", "")


def replayable(c, trace):
    """the visible trace is a complete run: search over the invisible transitions"""
    net = c["net"]
    start = frozenset(c["im"].items())
    goal = frozenset(c["fm"].items())
    seen = set()
    todo = [(start, 0)]
    while todo:
        m, i = todo.pop()
        if (m, i) in seen:
            continue
        seen.add((m, i))
        if i == len(trace) and m == goal:
            return True
        d = dict(m)
        for t in net.transitions:
            if t.label is not None and (i >= len(trace) or t.label != trace[i]):
                continue
            if all(d.get(a.source, 0) >= a.weight for a in t.in_arcs):
                e = dict(d)
                for a in t.in_arcs:
                    e[a.source] -= a.weight
                for a in t.out_arcs:
                    e[a.target] = e.get(a.target, 0) + a.weight
                todo.append((frozenset((p, k) for p, k in e.items() if k), i + (t.label is not None)))
    return False


SCENARIOS = [("runs", lambda s: c14.simulate(s, judge), 1)]
