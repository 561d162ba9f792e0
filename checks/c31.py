"""C31: the same call returns the same result in every interpreter, whatever the addresses of objects and the seed of string hashes."""
from dst import catalogue as C, hashpeer

PROPERTY = "C31"
RUNS = {"quick": 320, "thorough": 16000}
RULE = ("one run = 10 calls of the catalogue, each computed twice: with two seeds of the identity hashes (the order of sets of places, "
        "transitions, arcs, futures), or in two interpreters with different seeds of the string hashes (the order of sets of activities, "
        "attributes, resources); the canonical forms of the results must be equal; non-trivial always")
DISTINCT = "hash of the input, the calls and their results"
REAL = ["the public functions of pm4py.stats, discovery, conformance, filtering, convert, ml, org, ocel, llm, utils, analysis and the "
        "functions below them (catalogue.py, catalogue2.py)"]
STUB = ["identity hashes and uuids: seeded", "string hashes: PYTHONHASHSEED of the worker and of a second interpreter"]
ASSUMPTIONS = ["functions that draw random numbers are left out", "names of places and transitions, the order of sets and of dictionaries do not count, nor the order of columns",
               "decision mining is left out: its result depends on which of several optimal alignments is found"]
ADDR_OUT = {"decision mining"}
# the order of activities in a DFG file and of the children of a choice, and of the extensions of a log, follows the order of a set
HASH_OUT = ADDR_OUT | {"write dfg", "dfg serialize", "powl", "powl maximal", "write xes", "write xes lines"}


LISTS = {"log skeleton conformance", "declare conformance"}     # lists of deviations, in the order of a set


def loose(x, lists=False):
    """the order of columns of a DataFrame does not count"""
    if lists and isinstance(x, tuple) and len(x) == 2 and x[0] == "seq":
        return ("seq", sorted((loose(v, True) for v in x[1]), key=repr))
    if isinstance(x, tuple) and len(x) == 3 and x[0] == "df":
        o = sorted(range(len(x[1])), key=lambda i: x[1][i])
        return ("df", [x[1][i] for i in o], [[r[i] for i in o] for r in x[2]])
    if isinstance(x, (tuple, list)):
        return type(x)(loose(v, lists) for v in x)
    return x


def pick(sim, out):
    g = sim.gen
    d = C.describe(g)
    ops = [o for o in C.ops() if not o.rnd and o.name not in out and (not o.slow or g.flag(0.2))]
    return d, [o.name for o in g.sample(ops, 10)], g.int(1, 10 ** 6)


def compare(sim, d, names, a, b, cls):
    for name, x, y in zip(names, a, b):
        x, y = loose(x, name in LISTS), loose(y, name in LISTS)
        sim.check(x == y, cls, lambda: f"{name}: {C.diff(x, y)}", key=name)
        sim.ev(name, str(x)[:80])
        if isinstance(x, tuple) and x and x[0] == "raised":
            sim.probe("operation raised")
    sim.cover(d["cases"], names)
    sim.nontrivial = True


def addresses(sim):
    d, names, seed = pick(sim, ADDR_OUT)
    s1, s2 = (sim.gen.int(1, 10 ** 6) for _ in range(2))
    sim.injected("other-addresses")
    compare(sim, d, names, hashpeer.outcomes(d, names, seed, s1), hashpeer.outcomes(d, names, seed, s2), "depends-on-addresses")


def strings(sim):
    d, names, seed = pick(sim, HASH_OUT)
    s1 = sim.gen.int(1, 10 ** 6)
    sim.injected("other-string-hashes")
    compare(sim, d, names, hashpeer.outcomes(d, names, seed, s1), hashpeer.peer().ask(d, names, seed, s1), "depends-on-string-hashes")


SCENARIOS = [("addresses", addresses, 1), ("strings", strings, 1)]
