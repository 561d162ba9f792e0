"""A second interpreter with another seed of string hashes: computes outcomes of catalogue operations on request."""
import os
import pickle
import random
import struct
import subprocess
import sys

SEED = "424242"


class Draws:
    """the draws of an operation's arguments, repeatable in both interpreters"""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def int(self, a, b):
        return self.r.randint(a, b)

    def pick(self, seq):
        return self.r.choice(list(seq))

    def flag(self, p=0.5):
        return self.r.random() < p

    def sample(self, seq, k):
        seq = list(seq)
        return self.r.sample(seq, min(k, len(seq)))


def outcomes(d, names, seed, hashes):
    from . import catalogue as C, seams
    ops = {o.name: o for o in C.ops()}
    out = []
    for i, n in enumerate(names):
        call = ops[n].make(Draws(seed + i), d)
        E = C.fresh(d, 7, hashes)
        C.reseed(7)
        seams.set_hash_seed(hashes)
        out.append(C.outcome(call, E))
    return out


class Peer:
    def __init__(self):
        env = dict(os.environ, PYTHONHASHSEED=SEED)
        env.pop("LD_PRELOAD", None)
        self.p = subprocess.Popen([sys.executable, "-m", "dst.hashpeer"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

    def ask(self, *req):
        b = pickle.dumps(req)
        self.p.stdin.write(struct.pack("<I", len(b)) + b)
        self.p.stdin.flush()
        n = struct.unpack("<I", self.p.stdout.read(4))[0]
        return pickle.loads(self.p.stdout.read(n))


_peer = []


def peer():
    if not _peer:
        _peer.append(Peer())
    return _peer[0]


def main():
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    from . import runner
    runner.prepare()
    while True:
        h = sys.stdin.buffer.read(4)
        if len(h) < 4:
            return
        req = pickle.loads(sys.stdin.buffer.read(struct.unpack("<I", h)[0]))
        try:
            r = outcomes(*req)
        except Exception as e:
            r = [("peer failed", repr(e))]
        b = pickle.dumps(r)
        out.write(struct.pack("<I", len(b)) + b)
        out.flush()


if __name__ == "__main__":
    main()
