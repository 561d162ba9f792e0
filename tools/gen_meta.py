"""writes properties.jsonl and MANIFEST.json from tools/props.py (run by hand after editing it)"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE, TECH, NOTES  # noqa

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
allp = PROPS + NOT_APPLICABLE
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(allp, key=lambda p: (len(p["id"]), p["id"])):
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p.get("observe", []), "hook_needed": None}}
        f.write(json.dumps(d) + "\n")
checks = []
for p in PROPS:
    if not os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")):
        continue
    checks.append({"property": p["id"], "quick_cmd": f"{PY} -m dst.runner check {p['id']} --tier quick",
                   "thorough_cmd": f"{PY} -m dst.runner check {p['id']} --tier thorough",
                   "evidence_file": f"evidence/{p['id']}.json",
                   "technique": TECH + p["tech"], "level": "exploration", "level_note": p["note"]})
missing = [p for p in PROPS if not os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py"))]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE]
     + [{"property": p["id"], "reason": "applicable; its check is not built yet"} for p in missing],
     "notes": NOTES}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(line), sch)
    for p in allp:
        assert p["statement"].count(". ") <= 2, p["id"]
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), (p["id"], x)
    print("valid", len(checks), "checks", len(m["not_applicable"]), "not applicable")
except ImportError:
    print("jsonschema not available here: run with python3-vt to validate")
