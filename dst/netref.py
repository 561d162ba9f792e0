"""reference token game, written from the definition and independent of pm4py's semantics; markings are sorted tuples"""


class Net:
    def __init__(self, net, special=False):
        self.trans = sorted(net.transitions, key=lambda t: t.name)
        self.pre, self.post, self.label = {}, {}, {}
        for t in self.trans:
            self.pre[t], self.post[t], self.label[t] = [], [], t.label
        for a in net.arcs:
            if a.source in self.pre:
                self.post[a.source].append((a.target, a.weight))
            else:
                kind = type(a).__name__
                kind = {"InhibitorArc": "inhibitor", "ResetArc": "reset"}.get(kind, "normal") if special else "normal"
                self.pre[a.target].append((a.source, a.weight, kind))

    @staticmethod
    def key(m):
        return frozenset((p, n) for p, n in m.items() if n)

    def enabled(self, m):
        m = dict(m)
        return [t for t in self.trans
                if all((m.get(p, 0) == 0 if k == "inhibitor" else True if k == "reset" else m.get(p, 0) >= w)
                       for p, w, k in self.pre[t])]

    def fire(self, m, t):
        m = dict(m)
        for p, w, k in self.pre[t]:
            if k == "normal":
                m[p] = m.get(p, 0) - w
        for p, w, k in self.pre[t]:
            if k == "reset":
                m[p] = 0
        for p, w in self.post[t]:
            m[p] = m.get(p, 0) + w
        return self.key(m)

    def space(self, im, limit=150, tokens=8):
        """reachable markings and their successors, None if there are too many"""
        im = self.key(im)
        succ, todo = {}, [im]
        while todo:
            m = todo.pop()
            if m in succ:
                continue
            if len(succ) >= limit or sum(n for _, n in m) > tokens:
                return None
            succ[m] = [(t, self.fire(m, t)) for t in self.enabled(m)]
            todo += [x for _, x in succ[m]]
        return succ

    def closure(self, ms, succ):
        seen, todo = set(ms), list(ms)
        while todo:
            for t, n in succ[todo.pop()]:
                if self.label[t] is None and n not in seen:
                    seen.add(n)
                    todo.append(n)
        return seen

    def after(self, word, im, succ):
        """markings in which the word can end, silent transitions before and after included"""
        cur = self.closure({self.key(im)}, succ)
        for a in word:
            cur = self.closure({n for m in cur for t, n in succ[m] if self.label[t] == a}, succ)
        return cur

    def words(self, im, succ, final, maxlen, cap=6000):
        """the words of at most maxlen activities that can end in a marking satisfying final(); None above the cap"""
        out, layer, count = set(), {(): frozenset(self.closure({self.key(im)}, succ))}, 0
        for n in range(maxlen + 1):
            nxt = {}
            for w, ms in layer.items():
                if any(final(m) for m in ms):
                    out.add(w)
                if n < maxlen:
                    for a in sorted({self.label[t] for m in ms for t, _ in succ[m] if self.label[t] is not None}):
                        nxt[w + (a,)] = frozenset(self.closure({x for m in ms for t, x in succ[m] if self.label[t] == a}, succ))
            count += len(nxt)
            if count > cap:
                return None
            layer = nxt
        return out

    def trapped(self, succ, ok):
        """markings from which silent steps never lead to a visible one nor to a marking satisfying ok()"""
        good = {m for m in succ if ok(m) or any(self.label[t] is not None for t, _ in succ[m])}
        grew = True
        while grew:
            grew = False
            for m in succ:
                if m not in good and any(n in good for _, n in succ[m]):
                    good.add(m)
                    grew = True
        return set(succ) - good
