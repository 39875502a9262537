"""Rewrites the table of planted bugs in DESIGN.md (between the two markers)."""
import json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"c01-path-overlap", "c07-multigraph", "c20-every-rank", "c09-stale-swap", "c11-one-perfect"} | set(
    open(os.path.join(V, "tools", "missed_first.txt")).read().split() if os.path.exists(os.path.join(V, "tools", "missed_first.txt")) else []
)
rows = ["| planted bug | caught by | breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append(f"| {d}{' *' if d in MISSED else ''} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
block = "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->"
if "PLANTED_TABLE" in s:
    s = s.replace("PLANTED_TABLE", block)
else:
    s = re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: block, s, flags=re.S)
open(p, "w").write(s)
print(len(rows) - 2)
