"""C28: connectors return what their source served, and end, whatever the network or the database does."""
import collections
import contextlib
import datetime
import io
import json
import os
import shutil
import sqlite3
import sys
import tempfile
import types

from dst import seams, util
from dst.sim import Violation

PROPERTY = "C28"
RUNS = {"quick": 4000, "thorough": 120000}
RULE = ("one run = a simulated GitHub server (issues and timelines in pages, deleted accounts, issues created meanwhile), a browser "
        "history database, a Camunda or SAP database or the OpenAI service, with failures at seeded requests or steps, and one call of "
        "the connector; non-trivial when the source has events")
DISTINCT = "hash of the content of the source, the failures and the outcome"
REAL = ["pm4py.connectors.extract_log_* and extract_ocel_* for GitHub, Chrome, Firefox, Camunda, SAP", "pm4py.llm.openai_query",
        "the requests library down to HTTPAdapter.send", "sqlite3 as the database engine of histories, Camunda and SAP accounting"]
STUB = ["network: HTTPAdapter.send answered by a simulated server with failures, delays and rate limits", "clock and sleep: virtual",
        "pyodbc.connect: sqlite in memory, or prepared rows for the Oracle dialect of SAP O2C"]
ASSUMPTIONS = ["the order of events of a case with the same timestamp is not claimed", "Outlook and Windows event connectors need Windows and are left out",
               "the machine is in UTC: browser histories are in local time by design"]
UTC = datetime.timezone.utc


def frame_rows(df, cols):
    out = []
    for r in df.to_dict("records"):
        out.append(tuple(None if r.get(c) is None or r.get(c) != r.get(c) else (r[c].to_pydatetime() if hasattr(r[c], "to_pydatetime") else r[c])
                         for c in cols))
    return out


def stamp(d):
    return d.strftime("%Y-%m-%dT%H:%M:%SZ")


# ------------------------------------------------------------------ HTTP
class Net:
    """answers every request of the process; fails the requests chosen by the simulator"""

    def __init__(self, sim, serve, limit):
        import requests
        self.sim, self.serve, self.limit = sim, serve, limit
        self.n = 0
        self.log = []
        self.plan = {}
        self.persistent = None
        old = requests.adapters.HTTPAdapter.send
        sim.cleanups.append(lambda: setattr(requests.adapters.HTTPAdapter, "send", old))

        def send(adapter, request, **kw):
            return self.send(request)
        requests.adapters.HTTPAdapter.send = send

    def respond(self, request, status, body, headers=()):
        import requests
        r = requests.Response()
        r.status_code = status
        r._content = body if isinstance(body, bytes) else json.dumps(body).encode()
        r.headers = requests.structures.CaseInsensitiveDict(headers)
        r.url = request.url
        r.request = request
        r.encoding = "utf-8"
        r.reason = str(status)
        return r

    def send(self, request):
        import requests
        sim = self.sim
        self.n += 1
        if self.n > self.limit:
            raise Violation("no-progress", f"more than {self.limit} requests, last {request.url}")
        sim.simtime += 0.2
        f = self.plan.get(self.n)
        if self.persistent is not None and self.n >= self.persistent[0]:
            f = self.persistent[1]
        if f:
            sim.injected(f)
            sim.ev("request", self.n, request.url[-60:], "->", f)
            self.log.append((request.url, False))
            if f == "connection-error":
                raise requests.exceptions.ConnectionError("injected")
            if f == "timeout":
                raise requests.exceptions.ReadTimeout("injected")
            if f == "rate-limit":
                return self.respond(request, 403, {"message": "API rate limit exceeded", "documentation_url": "https://docs.github.com"})
            if f == "too-many-requests":
                return self.respond(request, 429, {"message": "secondary rate limit"})
            if f == "bad-gateway":
                return self.respond(request, 502, b"<html>502</html>")
            if f == "truncated":
                r = self.serve(request)
                return self.respond(request, r[0], json.dumps(r[1]).encode()[:-1])
            if f == "empty-body":
                return self.respond(request, 200, b"")
        r = self.serve(request)
        sim.ev("request", self.n, request.url[-60:], "->", r[0], len(r[1]) if isinstance(r[1], list) else "")
        self.log.append((request.url, True))
        return self.respond(request, *r)


FAILURES = ["connection-error", "timeout", "rate-limit", "too-many-requests", "bad-gateway", "truncated", "empty-body"]


class GitHub:
    def __init__(self, sim):
        from urllib.parse import urlsplit, parse_qs
        self.split, self.qs = urlsplit, parse_qs
        g = self.g = sim.gen
        self.sim = sim
        self.owner, self.repo = g.pick(["pm4py", "o"]), g.pick(["pm4py-core", "r"])
        self.users = ["ann", "bob", None]
        self.t0 = datetime.datetime(2023, 1, 1, tzinfo=UTC)
        self.issues = []
        self.timelines = {}
        n = g.pick([1, 2, 3, 5, 0, 4, 99, 100, 101, 150, 230])
        big = n > 20
        for i in range(n):
            self.new_issue(big)
        self.created_later = []
        self.later = g.pick([0, 0, 0, 1, 3]) if n else 0

    def new_issue(self, small=False):
        g = self.g
        no = len(self.issues) + 1
        t = self.t0 + datetime.timedelta(minutes=no)
        url = f"https://api.github.com/repos/{self.owner}/{self.repo}/issues/{no}/timeline"
        iss = {"number": no, "title": g.pick(["bug", "a,b \u00e9", ""]), "created_at": stamp(t), "author_association": g.pick(["NONE", "MEMBER"]),
               "user": self.user(), "timeline_url": url}
        if g.flag(0.3):
            iss["pull_request"] = {"url": url.replace("issues", "pulls")}
        tl = []
        k = g.pick([0, 0, 1]) if small and not g.flag(0.03) else g.pick([0, 1, 2, 3, 5, 29, 30, 31, 60, 101, 205]) if g.flag(0.3) else g.int(0, 3)
        for j in range(k):
            t += datetime.timedelta(seconds=g.pick([0, 1, 60]))
            ev = {"event": g.pick(["commented", "closed", "labeled"]), "id": j, "created_at": stamp(t), "actor": self.user()}
            kind = g.pick(["", "", "", "", "commit", "noevent", "noactor"])
            if kind == "commit":
                ev = {"event": "committed", "sha": str(j), "author": {"name": "x"}}
            elif kind == "noevent":
                del ev["event"]
            elif kind == "noactor":
                del ev["actor"]
            tl.append(ev)
        self.issues.append(iss)
        self.timelines[url] = tl
        return iss

    def user(self):
        u = self.g.pick(["ann", "ann", "bob", "eve", None] if self.sim_nulls() else ["ann", "bob"])
        return None if u is None else {"login": u}

    def sim_nulls(self):
        if not hasattr(self, "_nulls"):
            self._nulls = self.g.flag(0.5)
        return self._nulls

    def page(self, items, q, per=30):
        per = min(100, int(q.get("per_page", [per])[0]))
        p = max(1, int(q.get("page", [1])[0]))
        part = items[(p - 1) * per:p * per]
        h = []
        if p * per < len(items):
            h = [("Link", f'<{self.base}?{self.enc(dict(q, page=[str(p + 1)]))}>; rel="next"')]
        return 200, part, h

    def enc(self, q):
        from urllib.parse import urlencode
        return urlencode({k: v[0] for k, v in q.items()})

    def serve(self, request):
        u = self.split(request.url)
        q = self.qs(u.query)
        self.base = f"{u.scheme}://{u.netloc}{u.path}"
        if u.netloc != "api.github.com":
            return 404, {"message": "Not Found"}
        if u.path == f"/repos/{self.owner}/{self.repo}/issues":
            if int(q.get("page", ["1"])[0]) > 1 and self.later:
                for i in range(self.later):
                    self.created_later.append(self.new_issue(True)["timeline_url"])
                self.later = 0
                self.sim.injected("issues-created-between-pages")
            items = self.issues if q.get("state", [""])[0] == "all" else [i for i in self.issues if i["number"] % 2]
            items = sorted(items, key=lambda i: i["number"], reverse=q.get("direction", ["desc"])[0] != "asc")
            return self.page(items, q)
        if self.base in self.timelines:
            return self.page(self.timelines[self.base], q)
        return 404, {"message": "Not Found"}

    def events(self, url):
        """(url, event, instant, login) of an issue"""
        i = next(x for x in self.issues if x["timeline_url"] == url)
        p = i.get("pull_request", {}).get("url")
        same = (self.owner, self.owner + "/" + self.repo, i["author_association"], i["title"], p)

        def who(x):
            return x["login"] if x else None

        def at(s):
            return datetime.datetime.strptime(s, "%Y-%m-%dT%H:%M:%SZ").replace(tzinfo=UTC)
        out = [(url, "created", at(i["created_at"]), who(i["user"])) + same]
        for e in self.timelines[url]:
            if "created_at" in e and "event" in e and "actor" in e:
                out.append((url, e["event"], at(e["created_at"]), who(e["actor"])) + same)
        return out


def github(sim):
    import pm4py
    seams.set_clock(seams.Clock(sim))
    sim.cleanups.append(lambda: seams.set_clock(None))
    gh = GitHub(sim)
    need = 3 + len(gh.issues) // 100 + sum(1 + len(t) // 100 for t in gh.timelines.values())
    net = Net(sim, gh.serve, 3 * need + 60)
    f = sim.fault
    faulty = f.flag(0.5)
    if faulty:
        kind = f.pick(FAILURES)
        if f.flag(0.5):
            net.persistent = (f.int(1, min(need, 40)), kind)
        else:
            for i in range(f.pick([1, 1, 2])):
                net.plan[f.int(1, min(need, 40))] = f.pick(FAILURES)
    before = [i["timeline_url"] for i in gh.issues]
    df = pm4py.connectors.extract_log_github(gh.owner, gh.repo, *([] if f.flag(0.5) else ["token"]))
    cols = ["case:concept:name", "concept:name", "time:timestamp", "org:resource", "case:owner", "case:repo", "case:author_association", "case:title",
            "case:pull_request"]
    rows = frame_rows(df, cols) if len(df) else []
    got = collections.Counter(rows)
    every = collections.Counter(e for u in gh.timelines for e in gh.events(u))
    sim.check(not got - every, "invented-or-repeated-events", lambda: f"{list((got - every).items())[:3]} of {len(rows)}")
    failed = any(not ok for _, ok in net.log)
    if failed:
        # the responses before the first failure
        served = []
        for u, ok in net.log:
            if not ok:
                break
            served.append(u)
        last = net.log[len(served)][0].split("?")[0]
        done = [u.split("?")[0] for u in served if "/timeline" in u and u.split("?")[0] != last]
        want = collections.Counter(e for u in dict.fromkeys(done) for e in gh.events(u))
        sim.check(not want - got, "served-events-lost", lambda: f"{list((want - got).items())[:3]} failure at request {len(served) + 1}")
        sim.probe("failed request")
    else:
        want = collections.Counter(e for u in before for e in gh.events(u))
        sim.check(not want - got, "events-lost", lambda: f"{list((want - got).items())[:3]}, {len(rows)} of {sum(want.values())}")
    # ordered by case and time, cases contiguous
    seen, prev = set(), None
    for r in rows:
        if prev is not None and r[0] == prev[0]:
            sim.check(r[2] >= prev[2], "order-of-events", lambda: f"{prev[:3]} before {r[:3]}")
        else:
            sim.check(r[0] not in seen, "cases-mixed", lambda: r[0])
            seen.add(r[0])
        prev = r
    pages = sum("/timeline" not in u for u, _ in net.log)
    sim.check(net.n <= 2 * need + 10, "too-many-requests-made", lambda: f"{net.n} requests where {need} suffice")
    if len(df) and sim.gen.flag(0.3) and not failed and len(rows) < 200:
        oc = ocel_of(sim, pm4py.connectors.extract_ocel_github, (gh.owner, gh.repo), net)
        if oc is not None:
            rows = [e for u in gh.timelines for e in gh.events(u)]
            sim.check(len(oc.events) == len(rows), "ocel-events", lambda: f"{len(oc.events)} instead of {len(rows)}")
            rel = collections.Counter(zip(oc.relations["ocel:type"], oc.relations["ocel:oid"]))
            want = collections.Counter()
            for r in rows:
                for t, o in (("case:concept:name", r[0]), ("org:resource", r[3]), ("case:repo", r[5])):
                    if o is not None:
                        want[t, o] += 1
            sim.check(rel == want, "ocel-relations", lambda: f"{list((rel - want).items())[:3]} {list((want - rel).items())[:3]}")
    sim.cover(len(rows), failed, dict(net.plan), net.persistent, len(gh.issues), pages)
    sim.nontrivial = bool(gh.issues)


def ocel_of(sim, f, args, net=None):
    if net is not None:
        net.n, net.plan, net.persistent = 0, {}, None
    return f(*args)


# ------------------------------------------------------------------ OpenAI
def openai(sim):
    import pm4py
    g, f = sim.gen, sim.fault
    answer = g.pick(["6", "", "a\nb \u00e9", '{"error": 1}'])
    prompt = g.pick(["3+3?", "", "\u00e9 \"quoted\"\n"])
    model = g.pick([None, "gpt-4"])
    seen = []

    def serve(request):
        seen.append((request.url, json.loads(request.body), request.headers.get("Authorization")))
        return 200, {"id": "x", "choices": [{"index": 0, "message": {"role": "assistant", "content": answer}}]}, ()
    net = Net(sim, serve, 20)
    kind = f.pick([None, "error", "connection-error", "timeout", "bad-gateway", "truncated", "empty-body", "rate-limit"])
    if kind == "error":
        net.serve = lambda r: (401, {"error": {"message": "Incorrect API key", "type": "invalid_request_error"}}, ())
        sim.injected("error-answer")
    elif kind:
        net.persistent = (1, kind)
    try:
        r = ("ok", pm4py.llm.openai_query(prompt, api_key="sk-1", **({} if model is None else {"openai_model": model})))
    except Violation:
        raise
    except Exception as e:
        r = ("raised", e)
    if kind:
        sim.check(r[0] == "raised", "failure-hidden", lambda: f"{kind}: {r}")
        if kind == "error":
            sim.check("Incorrect API key" in str(r[1]), "error-message-lost", lambda: repr(r[1]))
    else:
        sim.check(r == ("ok", answer), "answer", lambda: f"{r} instead of {answer!r}")
        body = seen[-1][1]
        sim.check(prompt in json.dumps(body["messages"], ensure_ascii=False) or json.dumps(prompt)[1:-1] in json.dumps(body["messages"]), "prompt", lambda: body)
        sim.check(model is None or body["model"] == model, "model", lambda: body)
        sim.check(seen[-1][2] == "Bearer sk-1", "key", lambda: seen[-1][2])
    sim.ev("openai", kind, r[0])
    sim.cover("openai", kind, prompt, answer, model)
    sim.nontrivial = True


# ------------------------------------------------------------------ databases
class Conn:
    """a connection whose execute, fetch or cursor may fail"""

    def __init__(self, sim, real, fail):
        self.sim, self.real, self.fail = sim, real, fail

    def hit(self, step):
        if self.fail == step:
            self.sim.injected("database-" + step)
            raise sqlite3.OperationalError("injected " + step)

    def cursor(self):
        self.hit("cursor")
        return Cur(self, self.real.cursor())

    def execute(self, *a):
        return self.cursor().execute(*a)

    def close(self):
        self.real.close()

    def __getattr__(self, n):
        return getattr(self.real, n)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Cur:
    def __init__(self, conn, real):
        self.conn, self.real = conn, real
        self.got = 0

    def execute(self, *a):
        self.conn.hit("execute")
        self.real.execute(*a)
        return self

    def fetchall(self):
        self.conn.hit("fetch")
        return self.real.fetchall()

    def fetchmany(self, *a):
        self.conn.hit("fetch")
        return self.real.fetchmany(*a)

    def fetchone(self):
        self.conn.hit("fetch")
        return self.real.fetchone()

    def __iter__(self):
        while True:
            r = self.fetchone()
            if r is None:
                return
            yield r

    def close(self):
        self.real.close()

    def __getattr__(self, n):
        return getattr(self.real, n)


def outcome(f):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return "ok", f()
    except Violation:
        raise
    except Exception as e:
        return "raised", f"{type(e).__name__}: {e}"


def ordered(sim, rows):
    """rows of the same case stand together, in the order of time"""
    seen = set()
    for a, b in zip([(None, None)] + rows, rows):
        if a[0] == b[0]:
            sim.check(a[1] <= b[1], "order-of-events", lambda: f"{a} {b}")
        else:
            sim.check(b[0] not in seen, "order-of-events", lambda: f"the events of {b[0]} do not stand together")
            seen.add(b[0])


def history(sim):
    import pm4py
    g = sim.gen
    browser = g.pick(["chrome", "firefox"])
    d = tempfile.mkdtemp(prefix="h")
    sim.cleanups.append(lambda: shutil.rmtree(d, ignore_errors=True))
    urls = ["https://a.org/x?q=1", "http://b.org/", "https://a.org/x?q=2", "https://c.org/a,b", "file:///x//y", "https://a.org/x"]
    base = datetime.datetime(2024, 1, 1, tzinfo=UTC)
    many = g.flag(0.5)
    profs = ([f"Profile {g.pick([1, 2, 7, 10, 12])}", "Profile 3"][:g.int(1, 2)] if browser == "chrome" else ["abc.default", "z.dev"][:g.int(1, 2)]) if many else ["DEFAULT"]
    want = collections.Counter()
    fname = "History" if browser == "chrome" else "places.sqlite"
    for p in profs:
        path = os.path.join(d, p) if many else d
        os.makedirs(path, exist_ok=True)
        path = os.path.join(path, fname)
        c = sqlite3.connect(path)
        first = g.int(1, 5)
        ids = {first + k: g.pick(urls) for k in range(g.int(1, 4))}
        if browser == "chrome":
            c.execute("create table urls (id integer primary key, url text, title text)")
            c.execute("create table visits (id integer primary key, url integer, visit_time integer)")
            c.executemany("insert into urls values (?,?,'t')", list(ids.items()))
        else:
            c.execute("create table moz_places (id integer primary key, url text)")
            c.execute("create table moz_historyvisits (id integer primary key, place_id integer, visit_date integer)")
            c.executemany("insert into moz_places values (?,?)", list(ids.items()))
        for v in range(g.int(1200, 2600) if g.flag(0.02) else g.int(0, 6)):
            u = g.pick(list(ids))
            t = base + datetime.timedelta(seconds=g.int(0, 5) * 3600 + g.int(0, 3))
            micro = int(t.timestamp()) * 10 ** 6
            if browser == "chrome":
                c.execute("insert into visits values (?,?,?)", (v + 1, u, micro + 11644473600 * 10 ** 6))
            else:
                c.execute("insert into moz_historyvisits values (?,?,?)", (v + 1, u, micro))
            url = ids[u]
            rest = url.split("//")[-1]
            if rest.split("?")[0].replace(",", "").strip():
                want[p, rest.split("?")[0].replace(",", ""), url, rest.split("/")[0], t.replace(tzinfo=None)] += 1
        c.commit()
        c.close()
    if many and g.flag(0.3):
        os.makedirs(os.path.join(d, "Other"))
    fail = sim.fault.pick([None, None, None, "connect", "cursor", "execute", "fetch", "corrupt"])
    if fail == "corrupt":
        with open(path, "r+b") as f:
            f.write(b"\0" * 100)
        sim.injected("corrupted-database")
    real = sqlite3.connect
    which = sim.fault.int(1, len(profs))
    n = [0]

    def connect(*a, **k):
        n[0] += 1
        hit = fail if n[0] == which else None
        if hit == "connect":
            sim.injected("database-connect")
            raise sqlite3.OperationalError("injected connect")
        return Conn(sim, real(*a, **k), hit)
    sqlite3.connect = connect
    sim.cleanups.append(lambda: setattr(sqlite3, "connect", real))
    arg = d if many else path
    env = os.environ.get("USERNAME")
    sim.cleanups.append(lambda: os.environ.__setitem__("USERNAME", env) if env is not None else os.environ.pop("USERNAME", None))
    if g.flag(0.5):
        os.environ.pop("USERNAME", None)
    else:
        os.environ["USERNAME"] = "u"
    f = pm4py.connectors.extract_log_chrome_history if browser == "chrome" else pm4py.connectors.extract_log_firefox_history
    r = outcome(lambda: f(arg))
    sim.ev(browser, fail, r[0])
    if fail:
        sim.check(r[0] == "raised", "failure-hidden", lambda: f"{browser} {fail}: {len(r[1])} events returned")
    else:
        sim.check(r[0] == "ok", "extraction-failed", lambda: f"{browser}: {r[1]}")
        df = r[1]
        rows = frame_rows(df, ["case:concept:name", "concept:name", "complete_url", "domain", "time:timestamp"]) if len(df) else []
        got = collections.Counter(x[:4] + (x[4].replace(tzinfo=None),) for x in rows)
        sim.check(got == want, "events", lambda: f"{browser}: too many {list((got - want).items())[:3]}, missing {list((want - got).items())[:3]}")
        ordered(sim, [(x[0], x[4]) for x in rows])
    sim.cover(browser, fail, sorted(map(repr, want)))
    sim.nontrivial = bool(want)


def database(sim):
    import pm4py
    g = sim.gen
    which = g.pick(["camunda", "accounting", "o2c"])
    fail = sim.fault.pick([None, None, None, "cursor", "execute", "fetch", "connect"])
    c = sqlite3.connect(":memory:")
    base = datetime.datetime(2024, 1, 1)
    want = []
    cols = ["case:concept:name", "concept:name", "time:timestamp", "org:resource"]

    def t():
        return base + datetime.timedelta(hours=g.int(0, 30), seconds=g.pick([0, 1]))
    if which == "camunda":
        c.execute("create table act_hi_procinst (PROC_INST_ID_ text, PROC_DEF_KEY_ text)")
        c.execute("create table act_hi_actinst (PROC_INST_ID_ text, EXECUTION_ID_ text, ACT_NAME_ text, START_TIME_ text, ASSIGNEE_ text)")
        for i in range(g.int(1, 3)):
            c.execute("insert into act_hi_procinst values (?,?)", (f"p{i}", "key"))
            for j in range(g.int(1200, 2600) if g.flag(0.02) else g.int(0, 3)):
                row = (f"p{i}", f"p{i}" if g.flag(0.6) else f"x{i}", g.pick(["A", "B"]), str(t()), g.pick(["ann", None]))
                c.execute("insert into act_hi_actinst values (?,?,?,?,?)", row)
                want.append((row[1], row[2], datetime.datetime.fromisoformat(row[3]), row[4]))
        prefix = None
    elif which == "accounting":
        prefix = g.pick(["", "SAPSR3_"])
        c.execute(f"create table {prefix}BKPF (MANDT text, BUKRS text, GJAHR text, BELNR text, BLART text, CPUDT text, CPUTM text, USNAM text)")
        for tb in ("BSAD", "BSAK"):
            c.execute(f"create table {prefix}{tb} (MANDT text, BUKRS text, GJAHR text, AUGBL text, AUGDT text)")
        for i in range(g.int(1, 4)):
            d = t()
            row = ("800", "1000", "2024", f"{i // 2}", g.pick(["RV", "KR"]), d.strftime("%Y%m%d"), d.strftime("%H%M%S"), "ann")
            c.execute(f"insert into {prefix}BKPF values (?,?,?,?,?,?,?,?)", row)
            want.append((f"800-1000-2024-{i // 2}", "Create Financial Document - " + row[4], d, "ann"))
        for tb, name, sec in (("BSAD", "Clear Customer Document", "235958"), ("BSAK", "Clear Vendor Document", "235959")):
            for i in range(g.int(0, 2)):
                c.execute(f"insert into {prefix}{tb} values ('800','1000','2024',?,?)", (str(i), "20240105"))
                want.append((f"800-1000-2024-{i}", name, datetime.datetime.strptime("20240105 " + sec, "%Y%m%d %H%M%S"), None))
        want = list(dict.fromkeys(want))
    else:
        prefix = g.pick(["", "SAPSR3."])
        for i in range(g.int(1, 5)):
            want.append((f"v{g.int(0, 2)}", g.pick(["Create Sales Document", "Create Delivery", "Create Billing"]), t(), g.pick(["ann", "bob"])))
        rows = [(a, b, d.strftime("%Y%m%d %H%M%S"), e) for a, b, d, e in want]

        class Fixed:
            def cursor(self):
                return self

            def execute(self, q):
                for tb in ("VBAK", "LIKP", "VBFA", "CDHDR", "TSTCT", "VBRK"):
                    sim.check(prefix + tb in q, "query-prefix", lambda: f"{prefix}{tb}")

            def fetchall(self):
                return rows

            def close(self):
                pass
        c.close()
        c = Fixed()
    conn = Conn(sim, c, fail)
    mod = types.ModuleType("pyodbc")

    def connect(s, *a, **k):
        sim.check(s == "dsn", "connection-string", lambda: s)
        if fail == "connect":
            sim.injected("database-connect")
            raise sqlite3.OperationalError("injected connect")
        return conn
    mod.connect = connect
    old = sys.modules.get("pyodbc")
    sys.modules["pyodbc"] = mod
    sim.cleanups.append(lambda: sys.modules.__setitem__("pyodbc", old) if old is not None else sys.modules.pop("pyodbc", None))
    K = pm4py.connectors
    f = {"camunda": lambda: K.extract_log_camunda_workflow("dsn"), "accounting": lambda: K.extract_log_sap_accounting("dsn", prefix),
         "o2c": lambda: K.extract_log_sap_o2c("dsn", prefix)}[which]
    r = outcome(f)
    sim.ev(which, fail, r[0])
    if fail:
        sim.check(r[0] == "raised", "failure-hidden", lambda: f"{which} {fail}")
    elif want:
        sim.check(r[0] == "ok", "extraction-failed", lambda: f"{which}: {r[1]}")
        rows = frame_rows(r[1], cols)
        got = collections.Counter(x[:2] + (x[2].replace(tzinfo=None), x[3]) for x in rows)
        ordered(sim, [(x[0], x[2]) for x in rows])
        sim.check(got == collections.Counter(want), "events", lambda: f"{which}: {list((got - collections.Counter(want)).items())[:3]} {list((collections.Counter(want) - got).items())[:3]}")
    sim.cover(which, fail, sorted(map(repr, want)), prefix)
    sim.nontrivial = bool(want)


SCENARIOS = [("github", github, 5), ("history", history, 3), ("database", database, 2), ("openai", openai, 1)]
