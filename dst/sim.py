"""One simulated run: choice streams, event log, fault/probe counters, verdict."""
import hashlib
import os
import traceback

from .choices import Choices, Stream


_SCRATCH = os.environ.get("DST_SCRATCH", "")


def _plain(s):
    """the random name of the scratch directory is no part of an execution"""
    return s.replace(_SCRATCH, "<scratch>") if _SCRATCH and _SCRATCH in s else s


class Violation(Exception):
    def __init__(self, cls, msg, key=None):
        Exception.__init__(self, f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg
        self.key = key if key is not None else cls


class StepLimit(BaseException):
    pass


class Discard(Exception):
    """the generated workload is not meaningful (counted, never a verdict)"""


class Sim:
    def __init__(self, seed=None, recorded=None, tier="quick"):
        self.choices = Choices(seed, recorded)
        self.seed = seed
        self.tier = tier
        self.gen = Stream(self.choices, "gen")
        self.schedule = Stream(self.choices, "sched")
        self.fault = Stream(self.choices, "fault")
        self.rand = Stream(self.choices, "rand")
        self.faults = {}
        self.probes = {}
        self.trace = []
        self.trace_cap = 4000
        self.digest = hashlib.sha256()
        self.sig = hashlib.sha256()
        self.nevents = 0
        self.simtime = 0.0
        self.nontrivial = False
        self.sched = None
        self.cleanups = []
        self.known = []

    # logging never draws a choice and never reads a clock
    def ev(self, *what):
        s = _plain(" ".join(str(w) for w in what))
        self.digest.update(s.encode("utf-8", "surrogatepass") + b"\n")
        self.nevents += 1
        if len(self.trace) < self.trace_cap:
            self.trace.append(s)

    def injected(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def cover(self, *what):
        """what this run's distinctness is measured on"""
        self.sig.update(_plain(repr(what)).encode("utf-8", "surrogatepass"))

    def check(self, cond, cls, msg="", key=None):
        if not cond:
            raise Violation(cls, msg() if callable(msg) else msg, key)

    def seed_random(self):
        """random, numpy.random and uuid4 become functions of this run"""
        import random
        import numpy as np
        s = self.rand.int(0, 2 ** 31 - 1)
        random.seed(s)
        np.random.seed(s)
        from . import seams
        seams.set_uuid_seed(s)
        seams.set_hash_seed(s)
        return s


    def skew_draws(self, mode=None, limit=None):
        """the draws of the module `random` come from an adversary that prefers the ends of the range (never always);
        more than `limit` draws are no progress"""
        import random
        mode = mode or self.gen.pick(["plain", "plain", "low", "high", "ends"])
        if mode == "plain" and limit is None:
            return mode
        left = [limit]
        own = random.Random(self.rand.int(0, 2 ** 31 - 1))
        inst = random._inst
        below, uniform = type(inst)._randbelow, random.random

        def pick(n, low, high):
            if limit is not None:
                left[0] -= 1
                if left[0] < 0:
                    raise Violation("no-progress", f"more than {limit} draws", None)
            k = own.random()
            if mode == "plain":
                return None
            self.injected("skewed-draw")
            if k < 0.4:
                return low if mode != "high" else high
            if k < 0.6 and mode == "ends":
                return high
            return None

        def _randbelow(n):
            r = pick(n, 0, n - 1) if n > 0 else None
            return own._randbelow(n) if r is None else r

        def rnd():
            r = pick(0, own.choice([0.0, 1e-9]), 1 - 2 ** -53)
            return own.random() if r is None else r
        inst._randbelow = _randbelow
        random.random = rnd

        def undo():
            del inst._randbelow
            random.random = uniform
        self.cleanups.append(undo)
        return mode


def innermost_repo_frame(exc, root="/repo/pm4py"):
    found = None
    for fr, ln in traceback.walk_tb(exc.__traceback__):
        fn = fr.f_code.co_filename
        if fn.startswith(root):
            found = (fn[len(root) + 1:], fr.f_code.co_name, ln)
    return found
