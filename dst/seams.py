"""Seams: every source of nondeterminism, put behind the simulator.

install() is called once per process, before pm4py is imported.  All patched
objects are dual: outside a simulated run (or outside a simulated thread) they
behave exactly as the originals.
"""
import _thread
import sys
import threading
import time
import queue

from . import sched as S

_real = {}
_state = {"uuid": None, "hash": 0, "hashctr": 0, "tick": None, "clock": None}


# ------------------------------------------------------------------ locks
class SimLock:
    __slots__ = ("sc", "locked_", "name", "__weakref__")

    def __init__(self, sc):
        self.sc = sc
        self.locked_ = False

    def acquire(self, blocking=True, timeout=-1):
        sc = self.sc
        t = S.current()
        if t is None or sc.sim.sched is not sc:
            # a straggler outside the run: never block the simulator
            ok = not self.locked_
            self.locked_ = True
            return ok
        if not blocking:
            sc.yield_("try-lock")
            if self.locked_:
                return False
            self.locked_ = True
            return True
        if not self.locked_:
            sc.yield_("lock")
        if self.locked_:
            ok = sc.wait_until(self._free, None if timeout is None or timeout < 0 else timeout, "lock")
            if not ok:
                if sc.killing:
                    return True
                return False
        self.locked_ = True
        return True

    def _free(self):
        return not self.locked_

    def release(self):
        if not self.locked_:
            if self.sc.killing or self.sc.sim.sched is not self.sc:
                return
            raise RuntimeError("release unlocked lock")
        self.locked_ = False
        if S.current() is not None and self.sc.sim.sched is self.sc:
            self.sc.yield_("unlock")

    def locked(self):
        return self.locked_

    def _at_fork_reinit(self):
        self.locked_ = False

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def active():
    t = S.current()
    if t is None:
        return None
    return _cur_sched()


_cur = [None]


def _cur_sched():
    return _cur[0]


def set_sched(sc):
    _cur[0] = sc


def Lock():
    sc = active()
    if sc is not None:
        return SimLock(sc)
    return _real["allocate"]()


class DualLock:
    """for module level locks of the standard library that are taken inside runs"""

    def __init__(self):
        self.real = _real["allocate"]()
        self.sc = None
        self.sim = None

    def _get(self):
        sc = active()
        if sc is None:
            return self.real
        if self.sc is not sc:
            self.sc, self.sim = sc, SimLock(sc)
        return self.sim

    def acquire(self, *a, **k):
        return self._get().acquire(*a, **k)

    def release(self):
        return self._get().release()

    def locked(self):
        return self._get().locked()

    def _at_fork_reinit(self):
        self.real._at_fork_reinit()

    def __enter__(self):
        return self._get().acquire()

    def __exit__(self, *a):
        self._get().release()


# ------------------------------------------------------------------ threads
class SimThread(threading.Thread):
    _dst = None
    _dst_sc = None

    def __hash__(self):
        return sim_hash(self)

    def start(self):
        sc = active()
        if sc is None:
            return super().start()
        if not self._initialized:
            raise RuntimeError("thread.__init__() not called")
        if self._dst is not None or self._started.is_set():
            raise RuntimeError("threads can only be started once")
        n = sc.__dict__.setdefault("_nthreads", 0)
        sc._nthreads = n + 1
        self._dst_sc = sc
        self._dst = sc.spawn(self._dst_run, f"T{n}", self)
        self._started.set()
        sc.yield_("thread-start")

    def _dst_run(self):
        try:
            self.run()
        except S.SimKilled:
            raise
        except BaseException as e:   # as threading.excepthook: report, thread dies
            self._dst_sc.sim.ev("thread-died", self._dst.name, type(e).__name__)
            self._dst_sc.sim.__dict__.setdefault("thread_deaths", []).append((self, e))
            self._dst_sc.sim.probe("thread-died")

    def join(self, timeout=None):
        if self._dst is None:
            return super().join(timeout)
        d = self._dst
        if self._dst_sc.sim.sched is not self._dst_sc or S.current() is None:
            return
        self._dst_sc.wait_until(lambda: d.done, timeout, "join " + d.name)

    def is_alive(self):
        if self._dst is None:
            return super().is_alive()
        sc = self._dst_sc
        if sc.sim.sched is sc and S.current() is not None:
            sc.yield_("is_alive")
        return not self._dst.done


def SimpleQueue():
    if active() is not None:
        return queue._PySimpleQueue()
    return _real["SimpleQueue"]()


# ------------------------------------------------------------------ clock
class Clock:
    """virtual clock for runs without a scheduler; every read may tick or jump"""

    def __init__(self, sim, start=1_600_000_000.0, tick=0.0, jumps=()):
        self.sim = sim
        self.now = start
        self.start = start
        self.tick = tick
        self.reads = 0
        self.jumps = dict(jumps)    # read index -> seconds (may be negative)

    def time(self):
        self.reads += 1
        self.now += self.tick
        j = self.jumps.get(self.reads)
        if j is not None:
            self.now += j
            self.sim.injected("clock-jump" if j >= 0 else "clock-backwards")
            self.sim.ev("clock jump", j, "at read", self.reads)
        return self.now

    def sleep(self, d):
        self.now += max(0.0, d)
        self.sim.simtime += max(0.0, d)


def set_clock(c):
    _state["clock"] = c


def _time():
    sc = active()
    if sc is not None:
        return sc.wall()
    c = _state["clock"]
    if c is not None:
        return c.time()
    return _real["time"]()


def _monotonic():
    sc = active()
    if sc is not None:
        return sc.time()
    c = _state["clock"]
    if c is not None:
        return c.time()
    return _real["monotonic"]()


def _perf_counter():
    sc = active()
    if sc is not None:
        return sc.time()
    c = _state["clock"]
    if c is not None:
        return c.time()
    return _real["perf_counter"]()


def _time_ns():
    if active() is not None or _state["clock"] is not None:
        return int(_time() * 1e9)
    return _real["time_ns"]()


def _sleep(d):
    sc = active()
    if sc is not None:
        return sc.sleep(d)
    c = _state["clock"]
    if c is not None:
        return c.sleep(d)
    return _real["sleep"](d)


# ------------------------------------------------------------------ uuid / hashes
def set_uuid_seed(s):
    import random
    _state["uuid"] = _real["Random"](s)


def _uuid4():
    t = S.current()
    r = _state["uuid"]
    if t is not None and t in _threads:
        r = _threads[t][2]
    if r is None:
        return _real["uuid4"]()
    import uuid
    return uuid.UUID(int=r.getrandbits(128), version=4)


_threads = {}


def set_hash_seed(s):
    _state["hash"] = s & 0xFFFFFFFF
    _state["hashctr"] = 0
    _threads.clear()


def set_thread_seed(s):
    """identity hashes and uuids of the objects created by this thread do not depend on what the others create"""
    _threads[S.current()] = [s & 0xFFFFFFFF, 0, _real["Random"](s)]


def _mix(x):
    x = (x ^ (x >> 16)) * 0x45d9f3b & 0xFFFFFFFF
    x = (x ^ (x >> 16)) * 0x45d9f3b & 0xFFFFFFFF
    return x ^ (x >> 16)


def sim_hash(self):
    """identity hash without addresses: a function of the run and creation order"""
    d = self.__dict__
    h = d.get("_dst_h")
    if h is None or h[1] != id(self):
        own = _threads.get(S.current()) if _threads else None
        if own is not None:
            own[1] += 1
            ctr, seed = own[1], own[0]
        else:
            _state["hashctr"] += 1
            ctr, seed = _state["hashctr"], _state["hash"]
        h = (_mix((ctr * 2654435761 ^ seed) & 0xFFFFFFFF), id(self))
        d["_dst_h"] = h
    return h[0]


def patch_identity_hashes():
    """classes of pm4py whose hash is their address get a seeded identity hash"""
    from pm4py.objects.petri_net.obj import PetriNet
    from pm4py.objects.process_tree.obj import ProcessTree
    from pm4py.objects.process_tree.semantics import GenerationTree
    from pm4py.streaming.algo.interface import StreamingAlgorithm
    pl, tr = PetriNet.Place("p"), PetriNet.Transition("t", "t")
    probes = {PetriNet.Place: pl, PetriNet.Transition: tr, PetriNet.Arc: PetriNet.Arc(pl, tr),
              GenerationTree: GenerationTree(ProcessTree(label="a"))}
    for cls, o in probes.items():
        if hash(o) == id(o) and "__slots__" not in cls.__dict__:
            cls.__hash__ = sim_hash
            cls.__getstate__ = _getstate
    if StreamingAlgorithm.__hash__ is object.__hash__:
        StreamingAlgorithm.__hash__ = sim_hash


def _getstate(self):
    d = dict(self.__dict__)
    d.pop("_dst_h", None)
    return d


# ------------------------------------------------------------------ install
def install():
    if _real:
        return
    import random
    import uuid
    _real["allocate"] = _thread.allocate_lock
    _real["time"] = time.time
    _real["monotonic"] = time.monotonic
    _real["perf_counter"] = time.perf_counter
    _real["time_ns"] = time.time_ns
    _real["sleep"] = time.sleep
    _real["SimpleQueue"] = queue.SimpleQueue
    _real["uuid4"] = uuid.uuid4
    _real["Thread"] = threading.Thread
    _real["Random"] = random.Random

    # libraries that must keep the real clock/locks are imported first
    import concurrent.futures
    import concurrent.futures.thread
    import concurrent.futures.process  # noqa
    import multiprocessing  # noqa
    import logging
    logging.getLogger("concurrent.futures").disabled = True

    time.time = _time
    time.monotonic = _monotonic
    time.perf_counter = _perf_counter
    time.time_ns = _time_ns
    time.sleep = _sleep
    uuid.uuid4 = _uuid4
    threading.Lock = Lock
    threading._allocate_lock = Lock
    threading._CRLock = None        # RLock() falls back to the Python one, on our locks
    threading._time = _monotonic
    threading.Thread = SimThread
    queue.SimpleQueue = SimpleQueue
    queue.time = _monotonic
    concurrent.futures.thread._global_shutdown_lock = DualLock()
    concurrent.futures._base.time.monotonic = _monotonic
    # futures are locked and kept in order of their addresses: in order of creation instead
    base = concurrent.futures._base
    base.Future.__hash__ = sim_hash

    def acquire_futures(self, futures):
        self.futures = sorted(futures, key=lambda f: (sim_hash(f), id(f)))
    base._AcquireFutures.__init__ = acquire_futures
