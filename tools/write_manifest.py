"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules present."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    f = os.path.join(V, "mc/checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    src = open(f).read()
    doc = ast.get_docstring(ast.parse(src)) or ""
    tech = "bounded-exhaustive exploration of the real code against a reference model"
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "TECHNIQUE":
            tech = ast.literal_eval(n.value)
    checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": tech, "level": "model_checking",
                   "level_note": "Exhaustive within the bounds written to the evidence file (coverage.bounds); every explored execution runs the real implementation and is compared with an independent reference or invariant. " + doc.splitlines()[0]})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import numpy, pandas, scipy, sklearn, joblib'", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Known findings and repaired defects: known_findings.json. Run from /verif."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
