"""Writes MANIFEST.json from the registry of checks."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, "/repo")
from mon import checks  # noqa

NOTES = {}
exec(open(os.path.join(ROOT, "tools", "notes.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
known = set(checks.known())
out = dict(version=1, setup_cmd="bash setup.sh",
           checks=[], not_applicable=[])
for p in props:
    if p in known:
        t, n = NOTES[p]
        out["checks"].append(dict(property=p, quick_cmd=f"bash check.sh {p} quick", thorough_cmd=f"bash check.sh {p} thorough",
                                  evidence_file=f"evidence/{p}.json", technique=t, level="exploration", level_note=n))
    else:
        out["not_applicable"].append(dict(property=p, reason="no check yet"))
json.dump(out, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks")
