"""Deterministic scheduler: real threads, parked and released one at a time.

At most one simulated thread runs.  It gives up the baton only at a scheduling
point (a simulated lock/sleep/queue operation, a traced line or opcode of the
code under test, or an explicit yield); which thread gets it next is a choice of
the "sched" stream.  When nobody can run the virtual clock jumps to the next
timer; when there is no timer either, the run is deadlocked.
"""
import _thread
import sys
import threading as _threading

from .sim import Violation

_real_allocate = _thread.allocate_lock
_real_start = _thread.start_new_thread
get_ident = _thread.get_ident

_current = {}   # ident -> T of the live scheduler


class SimKilled(BaseException):
    pass


class T:
    __slots__ = ("tid", "name", "fn", "sem", "pred", "deadline", "done", "exc", "daemon", "why",
                 "timed_out", "ident", "kills", "pthread", "gap")

    def __init__(self, tid, name):
        self.tid = tid
        self.name = name
        self.sem = _real_allocate()
        self.sem.acquire()
        self.pred = None
        self.deadline = None
        self.done = False
        self.exc = None
        self.daemon = False
        self.why = ""
        self.timed_out = False
        self.ident = None
        self.kills = 0
        self.pthread = None
        self.gap = None


def current():
    return _current.get(get_ident())


class Sched:
    def __init__(self, sim, max_steps=60000, trace_prefixes=(), granularity=None, mean_gap=40,
                 switch_bias=0.5):
        self.sim = sim
        self.ch = sim.schedule
        self.threads = []
        self.now = 1_000_000.0
        self.steps = 0
        self.max_steps = max_steps
        self.killing = False
        self.deadlock = None
        self.overrun = False
        self.trace_prefixes = tuple(trace_prefixes)
        self.granularity = granularity     # None | "line" | "opcode"
        self.mean_gap = mean_gap
        self.switch_bias = switch_bias
        self.main = None
        self.cur = None
        self.preemptions = 0
        self.clock_reads = 0
        self.skew = 0.0         # of the wall clock against the monotonic one
        self.on_clock = None
        self.escaped = []
        self._main_done = _real_allocate()
        self._main_done.acquire()

    # ------------------------------------------------------------ running
    def run(self, fn):
        """run fn as simulated thread 0 in this OS thread, then drain/kill"""
        t = T(0, "main")
        t.ident = get_ident()
        self.threads.append(t)
        self.main = self.cur = t
        _current[t.ident] = t
        t.fn = None
        self.sim.sched = self
        try:
            self._trace_on(t)
            try:
                return fn()
            finally:
                sys.settrace(None)
        finally:
            try:
                self._kill_others()
            finally:
                _current.pop(t.ident, None)
                self.sim.simtime += self.now - 1_000_000.0
                self.sim.sched = None

    def spawn(self, fn, name, pthread=None):
        t = T(len(self.threads), name)
        t.pthread = pthread
        self.threads.append(t)

        def boot():
            t.ident = get_ident()
            t.sem.acquire()
            _current[t.ident] = t
            if pthread is not None:
                _threading._active[t.ident] = pthread
            try:
                if not self.killing:
                    self._trace_on(t)
                    fn()
            except SimKilled:
                pass
            except BaseException as e:  # noqa
                t.exc = e
                self.escaped.append((t.name, e))
            finally:
                sys.settrace(None)
                t.done = True
                if pthread is not None:
                    _threading._active.pop(t.ident, None)
                _current.pop(t.ident, None)
                self._handoff_exit(t)

        _real_start(boot, ())
        self.sim.ev("spawn", t.tid, name)
        return t

    # ------------------------------------------------------------ switching
    def _ready(self, t):
        if t.done:
            return False
        if t.pred is None:
            return True
        if t.pred():
            return True
        return t.deadline is not None and t.deadline <= self.now

    def _candidates(self, me):
        c = []
        if me is not None and self._ready(me):
            c.append(me)
        for t in self.threads:
            if t is not me and self._ready(t):
                c.append(t)
        return c

    def _choose(self, me):
        while True:
            c = self._candidates(me)
            if c:
                if len(c) == 1:
                    t = c[0]
                elif me is not None and c[0] is me:
                    # stay with probability 1-bias, else uniformly another
                    if not self.ch.flag(self.switch_bias):
                        t = me
                    else:
                        t = c[1 + self.ch.int(0, len(c) - 2)]
                else:
                    t = c[self.ch.int(0, len(c) - 1)]
                return t
            dl = [t.deadline for t in self.threads if not t.done and t.deadline is not None]
            if dl:
                self.now = max(self.now, min(dl))
                continue
            return None

    def _switch(self, me):
        """called by the running thread me; returns when me has the baton again"""
        if self.killing:
            if me is self.main:
                return
            raise SimKilled()
        self.steps += 1
        if self.steps > self.max_steps and not self.overrun:
            self.overrun = True
            self._abort(me)
        t = self._choose(me)
        if t is None:
            self.deadlock = "; ".join(f"{x.name}: {x.why}" for x in self.threads if not x.done)
            self._abort(me)
            t = self._choose(me) if not self.killing else me
        if t is not me:
            self.sim.sig.update(b"%d," % t.tid)
            self.preemptions += 1
            self.cur = t
            t.sem.release()
            me.sem.acquire()
            self.cur = me
        if self.killing and me is not self.main:
            raise SimKilled()
        if self.killing and me is self.main and (self.deadlock or self.overrun):
            self._raise_main()
        me.pred = None
        me.timed_out = False

    def _raise_main(self):
        if self.deadlock:
            d, self.deadlock = self.deadlock, None
            raise Violation("deadlock", d)
        self.overrun = False
        self.max_steps = 1 << 60
        raise Violation("no-progress", f"more than {self.steps} scheduling steps: " + "; ".join(
            f"{x.name}: {x.why}" for x in self.threads if not x.done))

    def _abort(self, me):
        """deadlock or overrun: give the main thread the exception"""
        self.killing = True
        if me is self.main:
            self._raise_main()
        self.cur = self.main
        self.main.sem.release()
        me.sem.acquire()
        raise SimKilled()

    def _handoff_exit(self, t):
        if self.killing:
            self._main_done.release()
            return
        try:
            n = self._choose(None)
        except BaseException as e:      # pragma: no cover
            self.escaped.append(("scheduler", e))
            n = self.main
        if n is None:
            self.deadlock = "; ".join(f"{x.name}: {x.why}" for x in self.threads if not x.done)
            self.killing = True
            n = self.main
        self.sim.sig.update(b"x%d," % n.tid)
        self.cur = n
        n.sem.release()

    def _kill_others(self):
        self.killing = True
        for t in self.threads:
            if t is self.main or t.done:
                continue
            # release it; it raises SimKilled at its scheduling point
            t.sem.release()
            if not self._main_done.acquire(True, 5):
                self.sim.probe("abandoned-thread")
        self.threads = [self.main]

    # ------------------------------------------------------------ API for primitives
    def yield_(self, why=""):
        me = _current.get(get_ident())
        if me is None:
            return
        me.why = why
        self._switch(me)

    def wait_until(self, pred, timeout=None, why=""):
        """True when pred holds, False on timeout (virtual time)"""
        me = _current[get_ident()]
        if self.killing:
            if me is self.main:
                return bool(pred())
            raise SimKilled()
        me.why = why
        me.pred = pred
        me.deadline = None if timeout is None else self.now + max(0.0, timeout)
        try:
            self._switch(me)
            return bool(pred())
        finally:
            me.pred = None
            me.deadline = None

    def sleep(self, d):
        me = _current[get_ident()]
        if self.killing:
            if me is self.main:
                return
            raise SimKilled()
        if d <= 0:
            return self.yield_("sleep")
        me.why = f"sleep {d}"
        me.pred = _never
        me.deadline = self.now + d
        try:
            self._switch(me)
        finally:
            me.pred = None
            me.deadline = None

    def time(self):
        return self.now

    def wall(self):
        self.clock_reads += 1
        if self.on_clock is not None:
            self.on_clock(self)
        return self.now + self.skew

    # ------------------------------------------------------------ preemption
    def _trace_on(self, t):
        if not self.granularity:
            return
        t.gap = self._next_gap()
        sys.settrace(self._gtrace)

    def _next_gap(self):
        g = self.ch.geom(self.mean_gap)
        return g if g > 0 else 1 << 30

    def _gtrace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(self.trace_prefixes):
            return None
        if self.granularity == "opcode":
            frame.f_trace_opcodes = True
        return self._ltrace

    def _ltrace(self, frame, event, arg):
        if event == ("opcode" if self.granularity == "opcode" else "line"):
            t = _current.get(get_ident())
            if t is None or self.killing:
                return None
            t.gap -= 1
            if t.gap <= 0:
                t.gap = self._next_gap()
                t.why = f"preempted at {frame.f_code.co_name}:{frame.f_lineno}"
                self.sim.probe("preempt-in-code")
                self._switch(t)
        return self._ltrace


def _never():
    return False
