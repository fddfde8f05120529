#!/usr/bin/env python3
"""Regenerate MANIFEST.json from props/registry.py and properties.jsonl, and validate it."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "props"))
import registry

PY = "/opt/veriftools/pyvenv/bin/python"
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
checks, na = [], []
for pid in ids:
    if pid in registry.CHECKS:
        mod, fn, level, note = registry.CHECKS[pid]
        checks.append({"property": pid, "quick_cmd": "%s check.py %s quick" % (PY, pid), "thorough_cmd": "%s check.py %s thorough" % (PY, pid),
                       "evidence_file": "evidence/%s.json" % pid, "technique": registry.TECHNIQUE.get(pid, registry.VN),
                       "level": level, "level_note": note})
    else:
        na.append({"property": pid, "reason": registry.NOT_APPLICABLE.get(pid, registry.PENDING)})
man = {"version": 1, "setup_cmd": "bash tool/build.sh", "checks": checks, "not_applicable": na, "notes": registry.NOTES}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(HERE, "properties.jsonl")):
        if l.strip():
            jsonschema.validate(json.loads(l), ps)
    print("%d checks, %d not applicable; schemas ok" % (len(checks), len(na)))
except FileNotFoundError:
    pass
