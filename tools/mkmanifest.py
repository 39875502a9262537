"""Writes MANIFEST.json from the check modules present."""
import ast, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(V, "mc", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    t = ast.parse(open(f).read())
    tech, note = None, None
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("TECHNIQUE", "BOUNDS"):
            v = ast.literal_eval(n.value)
            if n.targets[0].id == "TECHNIQUE": tech = v
            else: note = v
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check {p['id']} quick",
        "thorough_cmd": f"./check {p['id']} thorough",
        "technique": tech or "bounded exhaustive enumeration of the real code's behaviours (explicit-state model checking), compared with an independent reference model",
        "level": "model_checking",
        "level_note": "exhaustive within these bounds: " + (note["quick"] if isinstance(note, dict) else note),
    })
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
