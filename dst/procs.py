"""Simulated worker processes: process pools and managers whose workers are threads of the deterministic scheduler.

A task, its arguments and its result are pickled, as between processes, so nothing is shared except the queues and
events of a manager.  Arguments are pickled by a feeder that runs when the scheduler lets it, as in the real pools.
"""
import concurrent.futures
import concurrent.futures.process
import multiprocessing
import multiprocessing.managers
import multiprocessing.pool
import os
import pickle
import queue
import threading

from . import seams

_real = {}
_shared = {}


class Plan:
    """what the environment does to worker processes in this run"""

    def __init__(self, sim, cpus=4):
        self.sim = sim
        self.cpus = cpus
        self.kill_at = None         # the n-th task started kills its worker
        self.fail_at = None         # the n-th task fails inside the worker
        self.fail_with = None
        self.started = 0
        self.pools = 0
        self.order = []             # task numbers in order of completion
        self.bars = []              # progress bars shown


def _plan():
    return _plan_ref[0] if seams.active() is not None else None


_plan_ref = [None]


def set_plan(p):
    _plan_ref[0] = p
    _shared.clear()


class _Workers:
    def __init__(self, plan, n):
        if n is None:
            n = plan.cpus
        if n <= 0:
            raise ValueError("max_workers must be greater than 0")
        self.plan = plan
        self.n = n
        self.tasks = []             # (future, fn, args, kwargs) waiting for the feeder
        self.fed = []               # (future, pickled)
        self.threads = []
        self.closed = False
        self.broken = False
        self.sc = plan.sim.sched
        plan.pools += 1
        self.feeder = None

    def submit(self, fn, args, kwargs):
        f = concurrent.futures.Future()
        if self.broken:
            raise concurrent.futures.process.BrokenProcessPool("A child process terminated abruptly, the process pool is not usable anymore")
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        self.tasks.append((f, fn, args, kwargs))
        if self.feeder is None:
            self.feeder = self.sc.spawn(self.feed, "feeder")
        if len(self.threads) < self.n:
            self.threads.append(self.sc.spawn(self.work, f"worker{len(self.threads)}"))
        self.sc.yield_("submit")
        return f

    def idle(self):
        return not self.tasks and not self.fed

    def feed(self):
        while True:
            self.sc.wait_until(lambda: self.tasks or self.closed or self.broken, None, "feeder")
            if self.broken or self.closed and not self.tasks:
                return
            f, fn, args, kwargs = self.tasks.pop(0)
            try:
                data = pickle.dumps((fn, args, kwargs))
            except BaseException as e:
                f.set_exception(e)
                continue
            self.fed.append((f, data))
            self.sc.yield_("fed")

    def work(self):
        p = self.plan
        while True:
            self.sc.wait_until(lambda: self.fed or self.broken or self.closed and self.idle(), None, "worker")
            if self.broken or not self.fed:
                return
            f, data = self.fed.pop(0)
            if not f.set_running_or_notify_cancel():
                continue
            p.started += 1
            n = p.started
            p.sim.ev("task", n)
            if p.kill_at == n:
                p.sim.injected("worker-killed")
                self.die(f)
                return
            try:
                fn, args, kwargs = pickle.loads(data)
                if p.fail_at == n:
                    p.sim.injected("worker-failed")
                    raise p.fail_with
                self.sc.yield_("start")
                r = pickle.dumps(fn(*args, **kwargs))
                self.sc.yield_("computed")
                r = pickle.loads(r)
            except Exception as e:
                f.set_exception(e)
            else:
                p.order.append(n)
                f.set_result(r)

    def die(self, f):
        self.broken = True
        exc = concurrent.futures.process.BrokenProcessPool("A process in the process pool was terminated abruptly while the future was running or pending.")
        for x in [f] + [t[0] for t in self.fed] + [t[0] for t in self.tasks]:
            if not x.done():
                x.set_exception(exc)
        self.fed, self.tasks = [], []

    def shutdown(self, wait=True, cancel_futures=False):
        if cancel_futures:
            for t in self.tasks:
                t[0].cancel()
            self.tasks = []
        self.closed = True
        if wait:
            self.sc.wait_until(lambda: self.broken or all(t.done for t in self.threads), None, "shutdown")


class SimExecutor(concurrent.futures.Executor):
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        self._w = _Workers(_plan(), max_workers)
        if initializer is not None:
            initializer(*initargs)

    def submit(self, fn, /, *args, **kwargs):
        return self._w.submit(fn, args, kwargs)

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*iterables)]
        return (f.result(timeout) for f in fs)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._w.shutdown(wait, cancel_futures)


def ProcessPoolExecutor(*a, **k):
    if _plan() is not None:
        return SimExecutor(*a, **k)
    return _real["ProcessPoolExecutor"](*a, **k)


class SimResult:
    def __init__(self, f):
        self.f = f

    def get(self, timeout=None):
        try:
            return self.f.result(timeout)
        except concurrent.futures.TimeoutError as e:
            if self.f.done():
                raise
            raise multiprocessing.TimeoutError() from e

    def wait(self, timeout=None):
        concurrent.futures.wait([self.f], timeout)

    def ready(self):
        return self.f.done()

    def successful(self):
        if not self.f.done():
            raise ValueError("not ready")
        return self.f.exception() is None


class SimMulti:
    def __init__(self, fs):
        self.fs = fs

    def get(self, timeout=None):
        return [f.result(timeout) for f in self.fs]

    def ready(self):
        return all(f.done() for f in self.fs)

    def wait(self, timeout=None):
        concurrent.futures.wait(self.fs, timeout)


class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self._w = _Workers(_plan(), processes)
        if initializer is not None:
            initializer(*initargs)

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        f = self._w.submit(func, tuple(args), kwds or {})
        if callback is not None or error_callback is not None:
            def done(f):
                e = f.exception()
                if e is None and callback is not None:
                    callback(f.result())
                elif e is not None and error_callback is not None:
                    error_callback(e)
            f.add_done_callback(done)
        return SimResult(f)

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def map_async(self, func, iterable, chunksize=None):
        return SimMulti([self._w.submit(func, (x,), {}) for x in iterable])

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable).get()

    def starmap_async(self, func, iterable, chunksize=None):
        return SimMulti([self._w.submit(func, tuple(x), {}) for x in iterable])

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable).get()

    def imap(self, func, iterable, chunksize=1):
        fs = [self._w.submit(func, (x,), {}) for x in iterable]
        return (f.result() for f in fs)

    def imap_unordered(self, func, iterable, chunksize=1):
        fs = [self._w.submit(func, (x,), {}) for x in iterable]
        return (f.result() for f in concurrent.futures.as_completed(fs))

    def close(self):
        self._w.shutdown(False)

    def terminate(self):
        self._w.shutdown(False, True)

    def join(self):
        self._w.shutdown(True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


def Pool(*a, **k):
    if _plan() is not None:
        return SimPool(*a, **k)
    return _real["Pool"](*a, **k)


# ------------------------------------------------------------------ managers
def _proxy(i):
    return _shared[i]


class Proxy:
    """an object of the manager process: passed by reference, everything that goes through it is pickled"""

    def __init__(self, target, sc):
        self._t = target
        self._sc = sc
        self._i = len(_shared)
        _shared[self._i] = self

    def __reduce__(self):
        return _proxy, (self._i,)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        m = getattr(self._t, name)

        def call(*a, **k):
            self._sc.yield_("manager")
            r = m(*[_copy(x) for x in a], **k)
            return _copy(r)
        return call

    def __len__(self):
        return len(self._t)

    def __getitem__(self, k):
        self._sc.yield_("manager")
        return _copy(self._t[k])

    def __setitem__(self, k, v):
        self._sc.yield_("manager")
        self._t[k] = _copy(v)

    def __contains__(self, k):
        return k in self._t

    def __iter__(self):
        return iter(_copy(list(self._t)))

    def __enter__(self):
        return self._t.__enter__()

    def __exit__(self, *a):
        return self._t.__exit__(*a)


def _copy(x):
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    return pickle.loads(pickle.dumps(x))


class SimManager:
    def __init__(self):
        self._sc = _plan().sim.sched

    def _p(self, t):
        return Proxy(t, self._sc)

    def Queue(self, maxsize=0):
        return self._p(queue.Queue(maxsize))

    JoinableQueue = Queue

    def Event(self):
        return self._p(threading.Event())

    def Lock(self):
        return self._p(threading.Lock())

    def RLock(self):
        return self._p(threading.RLock())

    def dict(self, *a, **k):
        return self._p(dict(*a, **k))

    def list(self, *a):
        return self._p(list(*a))

    def start(self):
        pass

    def shutdown(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def Manager():
    if _plan() is not None:
        return SimManager()
    return _real["Manager"]()


class Bar:
    """a progress bar that only counts"""

    def __init__(self, iterable=None, total=None, **k):
        self.iterable, self.total, self.n, self.closed = iterable, total if total is not None else (len(iterable) if iterable is not None and hasattr(iterable, "__len__") else None), 0, False
        _plan().bars.append(self)

    def update(self, n=1):
        self.n += n

    def close(self):
        self.closed = True

    def set_description(self, *a, **k):
        pass

    def __iter__(self):
        for x in self.iterable:
            yield x
            self.n += 1
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True


def _tqdm(*a, **k):
    if _plan() is not None:
        return Bar(*a, **k)
    return _real["tqdm"](*a, **k)


def _cpu_count():
    p = _plan()
    return p.cpus if p is not None else _real["cpu_count"]()


def install():
    if _real:
        return
    _real["ProcessPoolExecutor"] = concurrent.futures.process.ProcessPoolExecutor
    _real["Pool"] = multiprocessing.Pool
    _real["Manager"] = multiprocessing.Manager
    _real["cpu_count"] = os.cpu_count
    concurrent.futures.ProcessPoolExecutor = ProcessPoolExecutor
    concurrent.futures.process.ProcessPoolExecutor = ProcessPoolExecutor
    multiprocessing.Pool = Pool
    multiprocessing.Manager = Manager
    os.cpu_count = _cpu_count
    multiprocessing.cpu_count = _cpu_count
    try:
        import tqdm.auto
    except ImportError:
        return
    _real["tqdm"] = tqdm.auto.tqdm
    tqdm.auto.tqdm = _tqdm
