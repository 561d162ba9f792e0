"""validates planted bugs: seed.py [--notests] ID...
in a scratch clone of /repo: the demonstration passes, the patch applies, the stable tests pass, the demonstration fails;
then the check of the property is run against the patched copy and its outcome is printed"""
import json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
notests = "--notests" in args
ids = [a for a in args if not a.startswith("--")]
if not ids:
    ids = sorted(os.listdir(HERE + "/seeded"))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as ex:
        return 124, (ex.stdout or b"").decode(errors="replace")


def one(i):
    src = f"{HERE}/seeded/{i}"
    meta = json.load(open(src + "/meta.json"))
    w = tempfile.mkdtemp(prefix="seed_" + i)
    out = [f"== {i} ({meta['property']})"]
    try:
        wt = w + "/r"
        sh(f"git clone -q --shared /repo {wt}", "/")
        d = w + "/demo"
        shutil.copytree(src, d, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        r, o = sh(f"bash {d}/demo.sh", wt, timeout=300)
        out.append(f"   demo unpatched {r}" + ("" if r == 0 else "  <<<< BAD\n" + o[-1500:]))
        r, o = sh(f"git apply {src}/patch.diff", wt)
        if r:
            return "\n".join(out + ["   patch does not apply <<<< BAD " + o])
        r, o = sh(f"bash {d}/demo.sh", wt, timeout=300)
        out.append(f"   demo patched {r}" + ("" if r not in (0, 124) else "  <<<< BAD\n" + o[-1500:]) + " " + o.strip()[-200:].replace("\n", " | "))
        if not notests:
            t = open("/opt/vp/test.sh").read().replace("/repo", wt)
            open(w + "/test.sh", "w").write(t)
            r, o = sh(f"bash {w}/test.sh {w}/o.json", wt)
            passed = set(json.load(open(w + "/o.json"))["passed"])
            lost = sorted(stable - passed)
            out.append(f"   stable tests lost: {lost[:5]}" + (" <<<< BAD" if lost else ""))
        prop = meta["property"]
        r, o = sh(f"/opt/venv/bin/python -m dst.runner check {prop}", HERE, {"DST_REPO": wt, "DST_EVIDENCE": w, "VERIF_SEED": "1"})
        v = [x for x in o.splitlines() if x.startswith("VIOLATION")]
        out.append(f"   check {prop}: exit {r} {'CAUGHT' if r == 1 and v else 'MISSED <<<<'} {v[:1]}")
        if r not in (0, 1):
            out.append(o[-1500:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return "\n".join(out)


with ThreadPoolExecutor(1 if "--serial" in args else 2) as tp:
    for s in tp.map(one, ids):
        print(s, flush=True)
