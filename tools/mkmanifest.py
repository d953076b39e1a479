"""Regenerates MANIFEST.json from properties.jsonl and the existing property modules."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    f = f"{V}/pbt/props/{i.lower()}.py"
    if not os.path.exists(f):
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
        continue
    tree = ast.parse(open(f).read())
    vals = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "ASSUMPTIONS", "TECHNIQUE"):
            try:
                vals[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception:
                pass
    checks.append(dict(
        property=i,
        quick_cmd=f"VERIF_TIER=quick ./check {i}",
        thorough_cmd=f"VERIF_TIER=thorough ./check {i}",
        technique=vals.get("TECHNIQUE", "property-based testing against an independent reference"),
        level="exploration",
        level_note="Generated-input search; a pass covers the cases counted in the evidence, not all inputs. "
        + vals.get("RULE", "") + (" Trusts: " + "; ".join(vals["ASSUMPTIONS"]) if vals.get("ASSUMPTIONS") else ""),
    ))
m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup.py", checks=checks, not_applicable=na,
    notes="Checks import qrisp from /repo/src directly (pure Python, nothing to build); numba caches are fresh per run.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not built")
