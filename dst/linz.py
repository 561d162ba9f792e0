"""Wing & Gong linearizability search for short histories.

ops: list of dict(inv, ret, op, args, res); model: init() -> state (hashable via key()),
apply(state, op, args) -> (result, newstate)."""


def linearizable(ops, init, apply, key=lambda s: s, maxnodes=400000):
    n = len(ops)
    ops = sorted(ops, key=lambda o: o["inv"])
    seen = set()
    nodes = [0]

    def rec(done, state):
        if len(done) == n:
            return True
        k = (frozenset(done), key(state))
        if k in seen:
            return False
        seen.add(k)
        nodes[0] += 1
        if nodes[0] > maxnodes:
            return True        # undecided counts as fine
        minret = min(ops[i]["ret"] for i in range(n) if i not in done)
        for i in range(n):
            if i in done or ops[i]["inv"] > minret:
                continue
            res, st = apply(state, ops[i]["op"], ops[i]["args"])
            if res == ops[i]["res"] and rec(done | {i}, st):
                return True
        return False
    return rec(frozenset(), init)
