#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (and checks that claims and rules agree)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
from engine import core
for m in sorted(os.listdir(os.path.join(V, "rules"))):
    if m.endswith(".py") and m != "__init__.py":
        importlib.import_module("rules." + m[:-3])
import props
rows, checks, na = [], [], []
for p in props.PROPS:
    claimed = p["id"] in core.REG
    if not claimed and "na" not in p:
        print("not yet built:", p["id"], p["title"])
        continue
    assert len(p["title"]) <= 80, p["title"]
    rows.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}})
    if claimed:
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py " + p["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                       "technique": p["tech"], "level": "other", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"]})
assert not set(core.REG) - {p["id"] for p in props.PROPS}, set(core.REG) - {p["id"] for p in props.PROPS}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for r in rows:
        f.write(json.dumps(r) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na}, f, indent=1)
print(len(rows), "properties", len(checks), "checks", len(na), "n/a")
