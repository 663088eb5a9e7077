"""Writes MANIFEST.json: one check per checks/h_cXX.py; the rest is not_applicable."""
import importlib.util
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "concolic symbolic execution of the real Python source, path conditions and assertions decided by z3 (QF_LIA), counterexamples replayed on the unmodified code"
BASE = ("Every path condition is regenerated from /repo's current source by AST instrumentation at run time; "
        "holds for all values within the bounds listed per obligation in the evidence file. Trusted: z3, the "
        "instrumentation and the models of built-ins (validated by replaying a sample of path witnesses on the "
        "unmodified code). ")
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
NA = NOTES.pop("_na", {})
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "checks", f"h_{i.lower()}.py")) and i not in NA:
        cmd = f"/opt/venv/bin/python checks/run.py {i}"
        checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick {cmd}",
                           thorough_cmd=f"VERIF_TIER=thorough {cmd}",
                           evidence_file=f"evidence/{i}.json", technique=TECH,
                           level="model_checking", level_note=BASE + NOTES.get(i, "")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/selfcheck.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the instrumentation happens at import time inside the checks.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in checks])
