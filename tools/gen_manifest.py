#!/opt/venv/bin/python
"""Writes MANIFEST.json from properties.jsonl and the constants of the check modules mc/cNN.py."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


checks, na = [], []
for line in open(f"{V}/properties.jsonl"):
    i = json.loads(line)["id"]
    p = f"{V}/mc/{i.lower()}.py"
    if not os.path.exists(p):
        na.append(dict(property=i, reason=NA.get(i, "no check has been built for it yet")))
        continue
    c = consts(p)
    cmd = f"/opt/venv/bin/python mc/run.py {i}"
    checks.append(dict(property=i, quick_cmd=cmd, thorough_cmd=f"VERIF_TIER=thorough {cmd}", evidence_file=f"evidence/{i}.json",
                       technique=c["TECHNIQUE"], level=c["LEVEL"],
                       level_note=c["NOTE"] + " Bounds (quick): " + c["BOUNDS"]["quick"]))
m = dict(version=1, setup_cmd="/opt/venv/bin/python mc/build.py", checks=checks, not_applicable=na,
         notes="No hooks are needed: every check drives the public functions and operators of a scratch copy of /repo's current "
               "tree, with the extension built from its current sources (mc/build.py). Reports of violations are replayed with "
               "'/opt/venv/bin/python mc/run.py --replay <file>'.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
