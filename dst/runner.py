"""Batch driver, worker, replay and minimiser.

    python -m dst.runner check  C01            (VERIF_SEED, VERIF_TIER)
    python -m dst.runner replay FILE.json
    python -m dst.runner worker ...            (internal)
    python -m dst.runner one C01 --index 17    (debugging: one run, prints its event log)
    python -m dst.runner selftest [C01 ...]    (determinism: same seeds, other worker counts)
"""
import argparse
import gc
import hashlib
import importlib
import io
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time as _t
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
PY = "/opt/venv/bin/python"
BLOCKS = 8
_now = _t.time     # the real clock, for wall-clock accounting only


def real_now():
    from . import seams
    f = seams._real.get("time")
    return f() if f else _now()


# ------------------------------------------------------------------ environment
def base_env(hashseed, scratch):
    env = dict(os.environ)
    env.update({
        "PYTHONPATH": f"{REPO}:{VERIF}", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
        "PM4PY_SHOW_PROGRESS_BAR": "False", "PYTHONHASHSEED": str(hashseed), "TZ": "UTC",
        "LC_ALL": "C.UTF-8", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
        "TMPDIR": scratch, "DST_SCRATCH": scratch, "PYTHONUNBUFFERED": "1", "HOME": scratch,
    })
    shim = os.path.join(VERIF, "build", "fsshim.so")
    if os.path.exists(shim):
        env["LD_PRELOAD"] = shim
    return env


def hashseed_of(seed, block):
    from .choices import derive
    return derive(seed, "hashseed", block) % 4294967295


def load(pid):
    return importlib.import_module(f"checks.{pid.lower()}")


_ready = False


def prepare():
    """seams in, code under test imported (once per process)"""
    global _ready
    if _ready:
        return
    _ready = True
    import warnings
    warnings.simplefilter("ignore")
    from . import seams
    import pandas  # noqa  (third party libraries keep the real primitives)
    import numpy  # noqa
    import lxml.etree  # noqa
    import networkx  # noqa
    import scipy  # noqa
    seams.install()
    from . import procs
    procs.install()
    import logging
    logging.disable(logging.CRITICAL)
    import pm4py  # noqa
    assert pm4py.__file__.startswith(REPO + "/"), pm4py.__file__
    seams.patch_identity_hashes()
    gc.disable()


class WorkerTimeout(BaseException):
    pass


# ------------------------------------------------------------------ a single run
def scenario_of(mod, index):
    tot = sum(w for _, _, w in mod.SCENARIOS)
    x = index % tot
    # interleave the scenarios so that every prefix of the batch has all of them
    order = getattr(mod, "_order", None)
    if order is None:
        pool = [[n, f, w, 0.0] for n, f, w in mod.SCENARIOS]
        order = []
        for _ in range(tot):
            for p in pool:
                p[3] += p[2]
            p = max(pool, key=lambda q: q[3])
            p[3] -= tot
            order.append((p[0], p[1]))
        mod._order = order
    return order[x]


def run_once(mod, name, fn, seed=None, recorded=None, tier="quick", steplimit=None):
    """returns (sim, outcome) ; outcome: None | dict(cls,msg,key) | dict(error=..)"""
    from .sim import Sim, Violation, Discard, StepLimit, innermost_repo_frame
    from . import seams
    from .sched import SimKilled
    prepare()
    sim = Sim(seed, recorded, tier)
    sim.sig.update(name.encode())
    out = None
    counter = None
    seams.set_clock(None)
    if steplimit:
        counter = StepCounter(steplimit)
        counter.on()
    try:
        try:
            sim.seed_random()
            fn(sim)
        finally:
            if counter:
                counter.off()
    except Violation as v:
        out = {"cls": v.cls, "msg": v.msg[:2000], "key": v.key}
    except Discard as d:
        sim.probe("discarded")
        sim.nontrivial = False
        sim.ev("discard", d)
    except StepLimit:
        out = {"cls": "no-progress", "msg": f"a call did not return within {steplimit} executed branches and calls",
               "key": "no-progress"}
    except WorkerTimeout:
        raise
    except BaseException as e:  # noqa
        if counter and counter.hit:
            out = {"cls": "no-progress", "msg": f"a call did not return within {steplimit} executed branches and calls",
                   "key": "no-progress"}
        elif isinstance(e, (KeyboardInterrupt, MemoryError)) and not getattr(e, "_dst", False):
            raise
        else:
            fr = innermost_repo_frame(e, REPO + "/pm4py")
            if fr is not None and not isinstance(e, SimKilled):
                out = {"cls": f"exception:{type(e).__name__}",
                       "msg": f"{type(e).__name__}: {e} raised in pm4py/{fr[0]}:{fr[1]}"[:2000],
                       "key": f"exception:{type(e).__name__}:{fr[0]}:{fr[1]}"}
            else:
                out = {"error": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]}
    finally:
        for c in reversed(sim.cleanups):
            try:
                c()
            except BaseException:  # noqa
                out = out or {"error": "cleanup: " + traceback.format_exc()[-2000:]}
        seams.set_clock(None)
        seams.set_sched(None)
    if out and "cls" in out:
        sim.ev("VIOLATION", out["cls"])
    return sim, out


class StepCounter:
    """deterministic step budget: branches, jumps and calls executed in Python code"""

    def __init__(self, limit):
        self.limit = limit
        self.n = 0
        self.hit = False

    def on(self):
        from .sim import StepLimit
        m = sys.monitoring
        m.use_tool_id(4, "dst")
        E = m.events

        own = os.path.dirname(os.path.abspath(__file__)) + os.sep

        def cb(code, *a):
            self.n += 1
            if self.n > self.limit and not code.co_filename.startswith(own):    # the simulator itself cleans up
                self.hit = True
                if self.n > self.limit + 100000:
                    self.n = self.limit
                raise StepLimit()
        for e in (E.JUMP, E.PY_START, E.BRANCH):
            m.register_callback(4, e, cb)
        m.set_events(4, E.JUMP | E.PY_START | E.BRANCH)

    def off(self):
        m = sys.monitoring
        m.set_events(4, 0)
        for e in (m.events.JUMP, m.events.PY_START, m.events.BRANCH):
            m.register_callback(4, e, None)
        m.free_tool_id(4)


# ------------------------------------------------------------------ worker
def worker(a):
    from .choices import derive
    out = open(a.out, "w", buffering=1)
    try:
        prepare()
        mod = load(a.pid)
    except BaseException as e:  # noqa
        from .sim import innermost_repo_frame
        fr = innermost_repo_frame(e, REPO + "/pm4py")
        out.write(json.dumps({"fatal": traceback.format_exc()[-3000:]}) + "\n")
        out.close()
        os._exit(3)

    limit = getattr(mod, "RUN_TIMEOUT", 60)
    cur = {"i": None}

    def on_alarm(sig, frm):
        out.write(json.dumps({"i": cur["i"], "timeout": True}) + "\n")
        out.close()
        os._exit(4)

    signal.signal(signal.SIGALRM, on_alarm)
    deadline = _real_time() + a.wall
    n = 0
    for i in range(a.block, a.runs, BLOCKS):
        if _real_time() > deadline:
            out.write(json.dumps({"stopped": i}) + "\n")
            break
        if os.path.exists(a.out + ".stop"):
            break
        cur["i"] = i
        name, fn = scenario_of(mod, i)
        seed = derive(a.seed, a.pid, i)
        signal.setitimer(signal.ITIMER_REAL, limit)
        sim, res = run_once(mod, name, fn, seed=seed, tier=a.tier)
        signal.setitimer(signal.ITIMER_REAL, 0)
        rec = {"i": i, "s": name, "seed": seed, "d": sim.digest.hexdigest()[:16], "g": sim.sig.hexdigest()[:16],
               "n": sim.nontrivial, "f": sim.faults, "p": sim.probes, "t": round(sim.simtime, 3), "e": sim.nevents}
        if i < 2 * BLOCKS:
            rec["trace"] = sim.trace[:60]
        if res:
            rec["res"] = res
            if "cls" in res:
                rec["streams"] = sim.choices.log
                rec["tail"] = sim.trace[-200:]
        out.write(json.dumps(rec) + "\n")
        n += 1
        if n % 40 == 0:
            gc.collect()
    out.write(json.dumps({"done": True}) + "\n")
    out.close()
    sys.stderr.flush()
    os._exit(0)


def _real_time():
    from . import seams
    return seams._real["time"]() if seams._real else _now()


# ------------------------------------------------------------------ minimise
def minimise(a):
    """in a fresh process: shrink the recorded streams while the class persists"""
    prepare()
    job = json.load(open(a.job))
    mod = load(job["property"])
    fn = dict((n, f) for n, f, _ in mod.SCENARIOS)[job["scenario"]]
    t_end = _real_time() + a.wall
    tests = [0]
    steplimit = job.get("steplimit")

    def fails(streams):
        tests[0] += 1
        sim, res = run_once(mod, job["scenario"], fn, recorded=streams, tier=job["tier"], steplimit=steplimit)
        if res and res.get("cls") == job["cls"] and (job.get("key") is None or res.get("key") == job["key"]):
            return sim, res
        return None

    best = job["streams"]
    got = fails(best)
    if got is None:
        json.dump({"ok": False, "tests": tests[0]}, open(a.out, "w"))
        os._exit(0)

    def norm(st):
        r = {}
        for k, v in st.items():
            v = list(v)
            while v and v[-1] == 0:
                v.pop()
            if v:
                r[k] = v
        return r

    best = norm(got[0].choices.log)
    best_got = got

    def attempt(cand):
        nonlocal best, best_got
        if _real_time() > t_end:
            return False
        g = fails(cand)
        if g is None:
            return False
        n = norm(g[0].choices.log)

        def size(st):
            return (sum(len(v) for v in st.values()), sum(1 for v in st.values() for x in v if x),
                    sum(x for v in st.values() for x in v))
        if size(n) < size(best):
            best = n
            best_got = g
            return True
        return False

    improved = True
    while improved and _real_time() < t_end:
        improved = False
        for k in sorted(best, key=lambda s: {"sched": 0, "fault": 1, "gen": 2}.get(s, 3)):
            if k not in best:
                continue
            if attempt({x: v for x, v in best.items() if x != k}):
                improved = True
                continue
            size = max(1, len(best.get(k, ())) // 2)
            while size >= 1 and _real_time() < t_end:
                i = 0
                while i < len(best.get(k, ())) and _real_time() < t_end:
                    v = best[k]
                    c = dict(best)
                    c[k] = v[:i] + v[i + size:]
                    if attempt(c):
                        improved = True
                        continue
                    if any(v[i:i + size]):
                        c = dict(best)
                        c[k] = v[:i] + [0] * len(v[i:i + size]) + v[i + size:]
                        if attempt(c):
                            improved = True
                    i += size
                size //= 2
            i = 0
            while i < len(best.get(k, ())) and _real_time() < t_end:
                v = best[k][i]
                for nv in (1, v // 2, v - 1):
                    if 0 <= nv < v and i < len(best.get(k, ())):
                        c = dict(best)
                        c[k] = best[k][:i] + [nv] + best[k][i + 1:]
                        if attempt(c):
                            improved = True
                            break
                i += 1
    sim, res = best_got
    json.dump({"ok": True, "streams": norm(sim.choices.log), "msg": res["msg"], "cls": res["cls"], "key": res["key"],
               "digest": sim.digest.hexdigest(), "trace": sim.trace[:400], "faults": sim.faults, "tests": tests[0]},
              open(a.out, "w"))
    sys.stderr.flush()
    os._exit(0)


def replay(path, quiet=False):
    """exit 1 with the VIOLATION line when the recorded violation reproduces"""
    r = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix="dst-replay-")
    try:
        p = subprocess.run([PY, "-m", "dst.runner", "replay-inner", os.path.abspath(path)], cwd=VERIF,
                           env=base_env(r["hashseed"], scratch), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=600)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if not quiet:
        sys.stdout.write(p.stdout)
        if p.returncode not in (0, 1):
            sys.stderr.write(p.stderr[-4000:])
    return p.returncode, p.stdout


def replay_inner(a):
    prepare()
    r = json.load(open(a.file))
    mod = load(r["property"])
    fns = dict((n, f) for n, f, _ in mod.SCENARIOS)
    for s in r.get("preceding", []):
        name, fn = scenario_of(mod, s["i"])
        run_once(mod, name, fn, seed=s["seed"], tier=r["tier"])
    sim, res = run_once(mod, r["scenario"], fns[r["scenario"]], recorded=r["streams"], tier=r["tier"],
                        steplimit=r.get("steplimit"))
    for line in sim.trace:
        print("  ", line)
    if res and "error" in res:
        print(res["error"])
        sys.stdout.flush()
        os._exit(2)
    if res:
        print("result:", res["cls"], "-", res["msg"])
        same = res["cls"] == r["cls"]
        exact = sim.digest.hexdigest() == r.get("digest")
        print(f"same class: {same}; identical event log: {exact}")
        if same:
            print(f"VIOLATION property={r['property']} replay={a.file}")
            sys.stdout.flush()
            os._exit(1)
    print("not reproduced")
    sys.stdout.flush()
    os._exit(0)


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    """lines 'known: {json}' of known_findings.txt; 'fixed: ...' lines suppress nothing"""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: "):
                r = json.loads(line[len("known: "):])
                if r["property"] == pid:
                    res.append(r)
    return res


# ------------------------------------------------------------------ driver
def run_blocks(pid, seed, tier, runs, wall, nworkers, scratch, blocks=None):
    blocks = list(range(BLOCKS)) if blocks is None else blocks
    procs = {}
    results = {}
    todo = list(blocks)
    fatal = None
    timeouts = []
    stop = False
    restarts = []
    while todo or procs:
        while todo and len(procs) < nworkers and not stop:
            b = todo.pop(0)
            sc = os.path.join(scratch, f"b{b}")
            os.makedirs(sc, exist_ok=True)
            outf = os.path.join(scratch, f"out{b}.jsonl")
            err = open(os.path.join(scratch, f"err{b}.txt"), "w")
            env = base_env(hashseed_of(seed, b), sc)
            p = subprocess.Popen([PY, "-m", "dst.runner", "worker", pid, "--seed", str(seed), "--tier", tier,
                                  "--runs", str(runs), "--block", str(b), "--out", outf, "--wall", str(wall)],
                                 cwd=VERIF, env=env, stdout=err, stderr=err)
            procs[b] = (p, outf, sc)
        if stop and not procs:
            break
        _t.sleep(0.05)
        for b, (p, outf, sc) in list(procs.items()):
            if p.poll() is None:
                continue
            del procs[b]
            recs = []
            for line in open(outf) if os.path.exists(outf) else []:
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    pass
            results[b] = recs
            shutil.rmtree(sc, ignore_errors=True)
            if not any("done" in r or "timeout" in r or "stopped" in r for r in recs):
                tail = open(os.path.join(scratch, f"err{b}.txt")).read()[-3000:]
                fatal = f"worker for block {b} ended with {p.returncode}: " + "".join(
                    r.get("fatal", "") for r in recs) + tail
                stop = True
            if any("timeout" in r for r in recs):
                timeouts += [(b, r["i"]) for r in recs if "timeout" in r]
            if any("res" in r for r in recs) or timeouts:
                if any(r.get("res", {}).get("cls") for r in recs) and not DRAIN:
                    pass
    return results, timeouts, fatal


DRAIN = True


def check(pid, tier, seed, nworkers=None, runs=None, wall=None, emit=True):
    t0 = _now()
    mod_runs, meta = module_meta(pid)
    runs = runs or mod_runs[tier]
    wall = wall or (330 if tier == "quick" else 5400)
    nworkers = nworkers or min(8, os.cpu_count() or 8)
    scratch = tempfile.mkdtemp(prefix=f"dst-{pid}-")
    try:
        return _check(pid, tier, seed, nworkers, runs, wall, scratch, t0, meta)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def module_meta(pid):
    """RUNS and texts of a check, read without importing pm4py"""
    import ast
    src = open(os.path.join(VERIF, "checks", pid.lower() + ".py")).read()
    meta = {}
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            try:
                meta[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return meta["RUNS"], meta


def _check(pid, tier, seed, nworkers, runs, wall, scratch, t0, meta):
    results, timeouts, fatal = run_blocks(pid, seed, tier, runs, wall, nworkers, scratch)
    recs = sorted((r for rs in results.values() for r in rs if "d" in r), key=lambda r: r["i"])
    if fatal:
        sys.stderr.write(fatal + "\n")
        return 2
    errors = [r for r in recs if r.get("res", {}).get("error")]
    viol = [r for r in recs if r.get("res", {}).get("cls")]
    kf = known_findings(pid)

    def is_known(r):
        return any(k["cls"] == r["res"]["cls"] and k["key"] == r["res"]["key"] for k in kf)
    fresh = [r for r in viol if not is_known(r)]

    write_evidence(pid, tier, seed, recs, runs, t0, meta, len(fresh), kf, viol)

    # known findings: replayed, so that the line says what still fails today
    for k in kf:
        rc, _ = replay(os.path.join(VERIF, k["replay"]), quiet=True)
        if rc == 1:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
        elif rc != 0:
            sys.stderr.write("replay of a known finding diverged\n")

    if timeouts and not fresh:
        # a run that did not come back: decide it with a deterministic step budget
        b, i = min(timeouts, key=lambda x: x[1])
        r = hang_replay(pid, tier, seed, b, i, scratch)
        if r is None:
            sys.stderr.write(f"run {i} exceeded its wall-clock limit and could not be classified\n")
            return 2
        fresh = [r]
    if fresh:
        best = None
        tried = set()
        for r in fresh[:12]:
            c = (r["s"], r["res"]["cls"], r["res"]["key"])
            if c in tried:
                continue
            tried.add(c)
            path = report(pid, tier, seed, r, scratch)
            if path:
                best = (r, path)
                break
        if best is None:
            sys.stderr.write("violations seen but none replays in a fresh process:\n")
            for r in fresh[:3]:
                sys.stderr.write(json.dumps(r["res"]) + "\n")
            return 2
        r, path = best
        print(f"seed={seed} run={r['i']} scenario={r['s']} class={r['res']['cls']}")
        print(r["res"]["msg"][:600])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        sys.stderr.write(errors[0]["res"]["error"] + "\n")
        return 2
    if len(recs) < max(10, min(runs, runs // 20)):
        sys.stderr.write(f"only {len(recs)} of {runs} runs finished within the wall-clock limit\n")
        return 2
    print(f"{pid}: {len(recs)} simulated runs, no violation ({_now() - t0:.0f} s)")
    return 0


def hang_replay(pid, tier, seed, block, i, scratch):
    sc = os.path.join(scratch, "hang")
    os.makedirs(sc, exist_ok=True)
    out = os.path.join(scratch, "hang.json")
    p = subprocess.run([PY, "-m", "dst.runner", "hang", pid, "--seed", str(seed), "--tier", tier, "--index", str(i),
                        "--out", out], cwd=VERIF, env=base_env(hashseed_of(seed, block), sc),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
    if not os.path.exists(out):
        sys.stderr.write(p.stdout.decode(errors="replace")[-2000:])
        return None
    r = json.load(open(out))
    return r if r.get("res", {}).get("cls") else None


def hang(a):
    from .choices import derive
    prepare()
    mod = load(a.pid)
    name, fn = scenario_of(mod, a.index)
    signal.alarm(300)
    lim = getattr(mod, "STEP_LIMIT", 60_000_000)
    seed = derive(a.seed, a.pid, a.index)
    sim, res = run_once(mod, name, fn, seed=seed, tier=a.tier, steplimit=lim)
    json.dump({"i": a.index, "s": name, "seed": seed, "res": res or {}, "streams": sim.choices.log, "steplimit": lim,
               "tail": sim.trace[-100:]}, open(a.out, "w"))
    os._exit(0)


def report(pid, tier, seed, r, scratch):
    """minimise, write the replay file, replay it in a fresh process"""
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    hs = hashseed_of(seed, r["i"] % BLOCKS)
    job = {"property": pid, "scenario": r["s"], "cls": r["res"]["cls"], "key": r["res"]["key"],
           "msg": r["res"]["msg"], "streams": r["streams"], "tier": tier, "hashseed": hs, "verif_seed": seed,
           "run_index": r["i"], "run_seed": r["seed"], "minimised": False, "trace": r.get("tail", [])}
    if r.get("steplimit"):
        job["steplimit"] = r["steplimit"]
    name = f"{pid}-{r['s']}-{seed}-{r['i']}.json"
    path = os.path.join(rdir, name)
    jf = os.path.join(scratch, "job.json")
    json.dump(job, open(jf, "w"))
    of = os.path.join(scratch, "min.json")
    sc = os.path.join(scratch, "min")
    os.makedirs(sc, exist_ok=True)
    wall = 45 if tier == "quick" else 180
    try:
        subprocess.run([PY, "-m", "dst.runner", "minimise", jf, "--out", of, "--wall", str(wall)], cwd=VERIF,
                       env=base_env(hs, sc), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                       timeout=wall + 120)
    except subprocess.TimeoutExpired:
        pass
    if os.path.exists(of):
        m = json.load(open(of))
        if m.get("ok"):
            job2 = dict(job)
            job2.update({k: m[k] for k in ("streams", "msg", "digest", "trace", "faults")})
            job2["minimised"] = True
            job2["minimiser_runs"] = m["tests"]
            job2["original_length"] = {k: len(v) for k, v in r["streams"].items()}
            json.dump(job2, open(path, "w"), indent=1)
            if replay(path, quiet=True)[0] == 1:
                r["res"]["msg"] = m["msg"]
                return path
    json.dump(job, open(path, "w"), indent=1)
    if replay(path, quiet=True)[0] == 1:
        return path
    # the failure needs what earlier runs left behind in the process: replay them first
    from .choices import derive
    job["preceding"] = [{"i": i, "seed": derive(seed, pid, i)} for i in range(r["i"] % BLOCKS, r["i"], BLOCKS)]
    json.dump(job, open(path, "w"), indent=1)
    if replay(path, quiet=True)[0] == 1:
        # the shortest suffix of earlier runs that is enough
        full = job["preceding"]
        n = 1
        while n < len(full):
            job["preceding"] = full[-n:]
            json.dump(job, open(path, "w"), indent=1)
            if replay(path, quiet=True)[0] == 1:
                break
            n *= 4
        else:
            job["preceding"] = full
            json.dump(job, open(path, "w"), indent=1)
        return path
    os.unlink(path)
    return None


def write_evidence(pid, tier, seed, recs, runs, t0, meta, nviol, kf, viol):
    wall = max(0.001, _now() - t0)
    faults, probes, scen = {}, {}, {}
    for r in recs:
        for k, v in r["f"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["p"].items():
            probes[k] = probes.get(k, 0) + v
        scen[r["s"]] = scen.get(r["s"], 0) + 1
    nontriv = {r["g"] for r in recs if r["n"]}
    samples = []
    seen = set()
    for r in recs:
        if r.get("trace") and r["s"] not in seen and r["n"]:
            seen.add(r["s"])
            samples.append({"run": r["i"], "scenario": r["s"], "seed": r["seed"], "event_log": r["trace"][:40]})
    if not samples:
        samples = [{"run": r["i"], "scenario": r["s"], "seed": r["seed"]} for r in recs[:2]]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": meta.get("LEVEL", "exploration"),
        "coverage": {
            "evaluations": len(recs), "distinct_nontrivial": len(nontriv), "rule": meta.get("RULE", ""),
            "samples": samples[:6], "runs_requested": runs, "runs_by_scenario": scen,
            "runs_per_hour": int(len(recs) / wall * 3600), "seeds_per_hour": int(len(recs) / wall * 3600),
            "simulated_seconds": round(sum(r["t"] for r in recs), 1),
            "events_logged": sum(r["e"] for r in recs),
            "faults_injected": dict(sorted(faults.items())), "probes": dict(sorted(probes.items())),
            "distinctness_measure": meta.get("DISTINCT", "hash of the schedule/fault/result signature of the run"),
            "components_real": meta.get("REAL", []), "components_stubbed": meta.get("STUB", []),
            "known_finding_hits": sum(1 for r in viol) - nviol,
        },
        "assumptions": meta.get("ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": nviol,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{pid}.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(d, f"{pid}.json"))


# ------------------------------------------------------------------ determinism
def selftest(pids, n, seeds):
    bad = 0
    for pid in pids:
        for seed in seeds:
            got = []
            for nw, blocks in ((8, None), (3, list(range(BLOCKS))[::-1])):
                scratch = tempfile.mkdtemp(prefix="dst-self-")
                res, to, fatal = run_blocks(pid, seed, "quick", n, 600, nw, scratch, blocks)
                shutil.rmtree(scratch, ignore_errors=True)
                if fatal:
                    print(fatal)
                    return 2
                got.append({r["i"]: (r["s"], r["d"], r["g"], r.get("res", {}).get("cls")) for rs in res.values()
                            for r in rs if "d" in r})
            diff = [i for i in got[0] if got[0][i] != got[1].get(i)]
            print(f"{pid} seed {seed}: {len(got[0])} runs twice, {len(diff)} differ"
                  + (": " + str([(i, got[0][i], got[1].get(i)) for i in diff[:3]]) if diff else ""))
            bad += len(diff)
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest="cmd")
    c = sp.add_parser("check")
    c.add_argument("pid")
    c.add_argument("--runs", type=int)
    c.add_argument("--workers", type=int)
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    c.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    w = sp.add_parser("worker")
    w.add_argument("pid")
    for x in ("--seed", "--runs", "--block"):
        w.add_argument(x, type=int)
    w.add_argument("--tier")
    w.add_argument("--out")
    w.add_argument("--wall", type=float)
    m = sp.add_parser("minimise")
    m.add_argument("job")
    m.add_argument("--out")
    m.add_argument("--wall", type=float, default=60)
    r = sp.add_parser("replay")
    r.add_argument("file")
    r2 = sp.add_parser("replay-inner")
    r2.add_argument("file")
    h = sp.add_parser("hang")
    h.add_argument("pid")
    h.add_argument("--seed", type=int)
    h.add_argument("--tier")
    h.add_argument("--index", type=int)
    h.add_argument("--out")
    o = sp.add_parser("one")
    o.add_argument("pid")
    o.add_argument("--index", type=int, default=0)
    o.add_argument("--seed", type=int, default=1)
    o.add_argument("--tier", default="quick")
    s = sp.add_parser("selftest")
    s.add_argument("pids", nargs="*")
    s.add_argument("--runs", type=int, default=320)
    s.add_argument("--seeds", default="1,2,3")
    a = ap.parse_args()
    if a.cmd == "check":
        tier = a.tier if a.tier in ("quick", "thorough") else "quick"
        rc = check(a.pid.upper(), tier, a.seed, nworkers=a.workers, runs=a.runs)
        sys.stdout.flush()
        sys.exit(rc)
    if a.cmd == "worker":
        worker(a)
    if a.cmd == "minimise":
        minimise(a)
    if a.cmd == "replay":
        rc, _ = replay(a.file)
        sys.exit(rc)
    if a.cmd == "replay-inner":
        replay_inner(a)
    if a.cmd == "hang":
        hang(a)
    if a.cmd == "one":
        scratch = tempfile.mkdtemp(prefix="dst-one-")
        if os.environ.get("DST_ONE") != "1":
            env = base_env(hashseed_of(a.seed, a.index % BLOCKS), scratch)
            env["DST_ONE"] = "1"
            rc = subprocess.call([PY, "-m", "dst.runner", *sys.argv[1:]], cwd=VERIF, env=env)
            shutil.rmtree(scratch, ignore_errors=True)
            sys.exit(rc)
        from .choices import derive
        prepare()
        mod = load(a.pid.upper())
        name, fn = scenario_of(mod, a.index)
        sim, res = run_once(mod, name, fn, seed=derive(a.seed, a.pid.upper(), a.index), tier=a.tier)
        for line in sim.trace:
            print("  ", line)
        print(name, "faults", sim.faults, "probes", sim.probes, "simtime", sim.simtime, "nontrivial", sim.nontrivial)
        print(res.get("error") if res and "error" in res else res)
        sys.stdout.flush()
        os._exit(0)
    if a.cmd == "selftest":
        pids = [p.upper() for p in a.pids] or sorted(
            f[:-3].upper() for f in os.listdir(os.path.join(VERIF, "checks")) if f[0] == "c" and f[1].isdigit())
        sys.exit(selftest(pids, a.runs, [int(x) for x in a.seeds.split(",")]))


if __name__ == "__main__":
    main()
