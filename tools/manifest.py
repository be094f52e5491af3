"""Regenerates MANIFEST.json from the check modules that exist"""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/veriftools/pyvenv/bin/python check.py"
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    path = os.path.join(V, "vf", "checks", p.lower() + ".py")
    if not os.path.exists(path):
        na.append({"property": p, "reason": "the check for this property is not built yet"})
        continue
    consts = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    checks.append({
        "property": p, "quick_cmd": f"{PY} {p} --tier quick", "thorough_cmd": f"{PY} {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": consts.get("TECHNIQUE", "property-based testing (Hypothesis) with generated cases, independent oracle and shrinking"),
        "level": consts["LEVEL"], "level_note": consts["NOTE"]})
json.dump({"version": 1, "setup_cmd": "/opt/veriftools/pyvenv/bin/python tools/selftest.py", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
