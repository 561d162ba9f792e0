"""helpers shared by the checks"""
import os

from . import seams
from .sched import Sched, current
from .sim import Violation

REPO = os.environ.get("DST_REPO", "/repo")


def run_threads(sim, fn, prefixes=(), granularity=None, mean_gap=40, bias=0.5, max_steps=60000):
    sc = Sched(sim, max_steps=max_steps, trace_prefixes=prefixes, granularity=granularity, mean_gap=mean_gap,
               switch_bias=bias)
    seams.set_sched(sc)
    try:
        return sc.run(lambda: fn(sc))
    finally:
        seams.set_sched(None)


def swarm_sched(sim, prefixes):
    """per-run scheduling style: sync points only, line- or opcode-level preemption"""
    g = sim.schedule.weighted([(None, 4), ("line", 5), ("opcode", 3)])
    gap = sim.schedule.pick([30, 8, 100, 15]) if g else 0
    bias = sim.schedule.pick([0.5, 0.15, 0.85])
    return dict(prefixes=prefixes, granularity=g, mean_gap=gap * (4 if g == "opcode" else 1), bias=bias)


def spawn(sc, fns):
    """client threads of the simulation; returns join()"""
    ts = [sc.spawn(f, n) for n, f in fns]

    def join():
        for t in ts:
            sc.wait_until(lambda t=t: t.done, None, "client " + t.name)
        for t in ts:
            if t.exc is not None:
                raise t.exc
    return join


def settle(sc, idle=50.0):
    """let everything else run until it blocks (virtual time passes only if nobody can run)"""
    sc.sleep(idle)


def drive(coro):
    """run a coroutine that never really awaits"""
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    raise AssertionError("coroutine suspended")
