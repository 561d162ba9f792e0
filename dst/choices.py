"""Every decision of a simulated run is one integer drawn from a named stream.

A run is a pure function of (streams, code, PYTHONHASHSEED).  In search mode a
stream is fed by a PRNG derived from the run's seed; in replay mode it is fed by
a recorded list (a list that is used up yields 0, which is by convention the
simplest choice: no preemption, no fault, smallest workload).
"""
import hashlib
import random as _random

_Random = _random.Random


def derive(*parts):
    h = hashlib.sha256("\x00".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Choices:
    def __init__(self, seed=None, recorded=None):
        self.seed = seed
        self.recorded = recorded
        self.log = {}
        self._rng = {}

    def draw(self, stream, n):
        """an integer in [0, n)"""
        lst = self.log.setdefault(stream, [])
        if n <= 1:
            v = 0
        elif self.recorded is not None:
            rec = self.recorded.get(stream, ())
            i = len(lst)
            v = rec[i] if i < len(rec) else 0
            if v >= n:
                v = n - 1
        else:
            r = self._rng.get(stream)
            if r is None:
                r = self._rng[stream] = _Random(derive(self.seed, stream))
            v = int(r.random() * n)
            if v >= n:
                v = n - 1
        lst.append(v)
        return v


class Stream:
    """typed draws on one stream; 0 is always the simplest value"""
    bulk = 0.0          # see gen.word

    def __init__(self, choices, name):
        self.c = choices
        self.name = name

    def int(self, lo, hi):
        """in [lo, hi], simplest lo"""
        return lo + self.c.draw(self.name, hi - lo + 1)

    def pick(self, seq):
        return seq[self.c.draw(self.name, len(seq))]

    def flag(self, p):
        """True with probability p; simplest False"""
        return self.c.draw(self.name, 1000) >= 1000 - int(p * 1000)

    def weighted(self, pairs):
        """pairs [(value, weight)]; simplest the first"""
        tot = sum(w for _, w in pairs)
        x = self.c.draw(self.name, tot)
        for v, w in pairs:
            if x < w:
                return v
            x -= w
        return pairs[-1][0]

    def frac(self):
        return self.c.draw(self.name, 1 << 20) / float(1 << 20)

    def geom(self, mean):
        """>=0; 0 simplest; roughly geometric with the given mean"""
        import math
        u = self.c.draw(self.name, 1 << 20) / float(1 << 20)
        return int(-mean * math.log(1.0 - u + 1e-9))

    def shuffle(self, seq):
        seq = list(seq)
        n = len(seq)
        for i in range(n - 1):
            j = i + self.c.draw(self.name, n - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k):
        return self.shuffle(seq)[:k]

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.flag(p)]
