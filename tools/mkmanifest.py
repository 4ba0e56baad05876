"""Regenerates MANIFEST.json from the check modules."""

import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "model_checking": "explicit-state exploration of all operation histories up to a depth on the real code, in lockstep with a reference model",
    "exploration": "bounded exhaustive enumeration of configurations on the real code, exact propagation of every input",
    "fault_enumeration": "exhaustive enumeration of all fault sets below the distance",
}
NOTE = (
    " Exhaustive within the stated bounds, nothing is sampled; assumes the bounds are "
    "representative, and trusts stim's parser and the checker's own Pauli propagation."
)
checks, na = [], []
for line in open(f"{V}/properties.jsonl"):
    p = json.loads(line)["id"]
    path = f"{V}/mc/{p.lower()}.py"
    if not os.path.exists(path):
        na.append(dict(property=p, reason="check not built yet"))
        continue
    t = ast.parse(open(path).read())
    level = [
        n.value.value
        for n in t.body
        if isinstance(n, ast.Assign) and n.targets[0].id == "LEVEL"
    ][0]
    cmd = f"/opt/venv/bin/python /verif/mc/run.py {p} "
    checks.append(
        dict(
            property=p,
            quick_cmd=cmd + "quick",
            thorough_cmd=cmd + "thorough",
            technique=TECH[level],
            level=level,
            level_note=" ".join(ast.get_docstring(t).split()) + NOTE,
        )
    )
m = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -c 'import stim, numpy, galois, xarray, yaml, networkx'",
    checks=checks,
    not_applicable=na,
    notes="No hooks in /repo: the checks import the package from /repo's working tree.",
)
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "unclaimed")
