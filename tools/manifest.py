#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run: python3 tools/manifest.py)."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hooks:"], capture_output=True, text=True).stdout.split()
T = {}
def t(id, technique, note, level="exploration"):
    T[id] = (technique, note, level)
exec(open(os.path.join(here, "checks.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
NA = globals().get("NA", {})
m = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="verif", enable="-tags verif", source_commits=hook),
    checks=[dict(property=p, quick_cmd=f"./run.sh {p} quick", thorough_cmd=f"./run.sh {p} thorough",
        technique=T[p][0], level=T[p][2], level_note=T[p][1]) for p in props if p in T],
    not_applicable=[dict(property=p, reason=NA.get(p, "check not built yet")) for p in props if p not in T])
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
