"""the language of a process tree by partial derivatives (Antimirov, with shuffle), written from the definition of the operators.
expressions: ('tau',) ('act', a) ('seq', ...) ('alt', ...) ('par', ...) ('or', ...) ('int', ...) ('loop', do, redo, exit)
('more', do, redo, exit): a loop whose do part was just completed"""
TAU = ("tau",)


def of(tree):
    if not tree.children:
        return TAU if tree.label is None else ("act", tree.label)
    ch = tuple(of(c) for c in tree.children)
    op = tree.operator.value
    if op == "*":
        return ("loop",) + (ch + (TAU,) * 3)[:3]
    return ({"->": "seq", "X": "alt", "+": "par", "O": "or", "<>": "int"}[op],) + ch


def mk(kind, parts):
    if kind in ("seq", "par"):
        flat = []
        for p in parts:
            flat += p[1:] if p[0] == kind else [p]
        parts = [p for p in flat if p != TAU]
        if kind == "par":
            parts.sort(key=repr)
        if not parts:
            return TAU
        if len(parts) == 1:
            return parts[0]
    if not parts:
        return TAU
    return (kind,) + tuple(parts)


def nullable(e, memo={}):
    k = e[0]
    if k == "tau":
        return True
    if k == "act":
        return False
    r = memo.get(e)
    if r is None:
        if k in ("seq", "par", "int"):
            r = all(nullable(x) for x in e[1:])
        elif k in ("alt", "or"):
            r = any(nullable(x) for x in e[1:])
        elif k == "loop":
            r = nullable(e[1]) and nullable(e[3])
        else:
            r = nullable(e[3])
        if len(memo) > 50000:
            memo.clear()
        memo[e] = r
    return r


def derive(e, a, busy=()):
    k = e[0]
    if k == "tau":
        return set()
    if k == "act":
        return {TAU} if e[1] == a else set()
    if k == "alt":
        return set().union(*(derive(x, a, busy) for x in e[1:]))
    if k == "seq":
        out = {mk("seq", (d,) + e[2:]) for d in derive(e[1], a, busy)}
        if nullable(e[1]):
            out |= derive(mk("seq", e[2:]), a, busy)
        return out
    if k == "par":
        return {mk("par", e[1:i] + (d,) + e[i + 1:]) for i in range(1, len(e)) for d in derive(e[i], a, busy)}
    if k == "or":
        out = set()
        for i in range(1, len(e)):
            rest = tuple(("alt", x, TAU) for j, x in enumerate(e) if j not in (0, i))
            out |= {mk("par", (d,) + rest) for d in derive(e[i], a, busy)}
        return out
    if k == "int":
        out = set()
        for i in range(1, len(e)):
            rest = mk("int", e[1:i] + e[i + 1:]) if len(e) > 2 else TAU
            out |= {mk("seq", (d, rest)) for d in derive(e[i], a, busy)}
            if nullable(e[i]) and len(e) > 2:
                out |= derive(rest, a, busy)
        return out
    if k == "loop":
        more = ("more",) + e[1:]
        out = {mk("seq", (d, more)) for d in derive(e[1], a, busy)}
        if nullable(e[1]):
            out |= derive(more, a, busy)
        return out
    # more: exit, or redo, do and more again
    if e in busy:
        return set()
    return derive(e[3], a, busy + (e,)) | derive(mk("seq", (e[2], e[1], e)), a, busy + (e,))


def accepts(e, word):
    cur = {e}
    for a in word:
        cur = set().union(*(derive(x, a) for x in cur))
        if not cur:
            return False
    return any(nullable(x) for x in cur)


def alphabet(e):
    if e[0] == "act":
        return {e[1]}
    return set().union(set(), *(alphabet(x) for x in e[1:]))


def words(e, maxlen, cap=6000):
    """all words of at most maxlen activities, None above the cap"""
    out, layer, n = set(), {(): {e}}, 0
    acts = sorted(alphabet(e))
    for k in range(maxlen + 1):
        nxt = {}
        for w, es in layer.items():
            if any(nullable(x) for x in es):
                out.add(w)
            if k < maxlen:
                for a in acts:
                    d = set().union(*(derive(x, a) for x in es))
                    if d:
                        nxt[w + (a,)] = d
        n += sum(len(d) for d in nxt.values())
        if n > cap:
            return None
        layer = nxt
    return out
