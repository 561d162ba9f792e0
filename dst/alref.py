"""reference alignments: cheapest path of the product of the token game (or of the language of a tree) and the trace, by Dijkstra;
a cost is (deviations, silent moves)"""
import heapq
import itertools

from . import ptlang

SKIP = ">>"


def best(ref, im, fm, trace, cap=60000, wmodel=None, wlog=None, wtau=1):
    """minimal total cost; default: (deviations, taus) encoded as deviations * 10000 + taus; None above the cap"""
    im, fm = ref.key(im), ref.key(fm)
    n = itertools.count()
    heap, closed = [(0, next(n), im, 0)], set()
    cache = {}
    while heap:
        c, _, m, i = heapq.heappop(heap)
        if (m, i) in closed:
            continue
        closed.add((m, i))
        if len(closed) > cap:
            return None
        if m == fm and i == len(trace):
            return c
        if i < len(trace):
            heapq.heappush(heap, (c + (10000 if wlog is None else wlog[i]), next(n), m, i + 1))
        if m not in cache:
            cache[m] = [(t, ref.fire(m, t)) for t in ref.enabled(m)]
        for t, m2 in cache[m]:
            lab = ref.label[t]
            w = wmodel[t] if wmodel is not None else (10000 if lab is not None else wtau)
            heapq.heappush(heap, (c + w, next(n), m2, i))
            if lab is not None and i < len(trace) and lab == trace[i]:
                heapq.heappush(heap, (c, next(n), m2, i + 1))
    return -1


def run_labels(ref, im, fm, labels):
    """can the moves (labels, None for a silent one) be done from im to fm?"""
    cur = {ref.key(im)}
    for a in labels:
        cur = {ref.fire(m, t) for m in cur for t in ref.enabled(m) if ref.label[t] == a}
        if not cur:
            return False
    return ref.key(fm) in cur


def split(moves):
    """(trace, labels of the model, deviations, silent moves) of pairs (log, model)"""
    tr, mod, dev, taus = [], [], 0, 0
    for a, b in moves:
        if a != SKIP:
            tr.append(a)
        if b != SKIP:
            mod.append(b)
        if a == SKIP and b is None:
            taus += 1
        elif a == SKIP or b == SKIP:
            dev += 1
        elif a != b:
            return None
        if a == SKIP and b == SKIP:
            return None
    return tuple(tr), mod, dev, taus


def tree_best(tree, trace, cap=40000):
    """fewest deviations of the trace from the language of the tree"""
    e0 = ptlang.of(tree)
    acts = sorted(ptlang.alphabet(e0))
    n = itertools.count()
    heap, closed, memo = [(0, next(n), e0, 0)], set(), {}
    while heap:
        c, _, e, i = heapq.heappop(heap)
        if (e, i) in closed:
            continue
        closed.add((e, i))
        if len(closed) > cap:
            return None
        if i == len(trace) and ptlang.nullable(e):
            return c
        if i < len(trace):
            heapq.heappush(heap, (c + 1, next(n), e, i + 1))
        for a in acts:
            if (e, a) not in memo:
                memo[e, a] = ptlang.derive(e, a)
            for d in memo[e, a]:
                heapq.heappush(heap, (c + 1, next(n), d, i))
                if i < len(trace) and trace[i] == a:
                    heapq.heappush(heap, (c, next(n), d, i + 1))
    return -1


def dfg_best(dfg, sa, ea, trace, wlog=1, wmodel=1):
    """alignment with a directly-follows graph: a walk from a start to an end activity"""
    out = {}
    for a, b in dfg:
        out.setdefault(a, []).append(b)
    n = itertools.count()
    heap, closed = [(0, next(n), None, 0)], set()
    while heap:
        c, _, s, i = heapq.heappop(heap)
        if (s, i) in closed:
            continue
        closed.add((s, i))
        if i == len(trace) and s is not None and s in ea:
            return c
        if i < len(trace):
            heapq.heappush(heap, (c + wlog, next(n), s, i + 1))
        for b in (sorted(sa) if s is None else out.get(s, [])):
            heapq.heappush(heap, (c + wmodel, next(n), b, i))
            if i < len(trace) and trace[i] == b:
                heapq.heappush(heap, (c, next(n), b, i + 1))
    return -1


def edit(a, b):
    """insertions and deletions only"""
    row = list(range(len(b) + 1))
    for i, x in enumerate(a):
        new = [i + 1]
        for j, y in enumerate(b):
            new.append(row[j] if x == y else 1 + min(row[j + 1], new[j]))
        row = new
    return row[-1]
