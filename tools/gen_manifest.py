"""Regenerate MANIFEST.json from the check modules (TECHNIQUE / NOTE constants) and properties.jsonl."""
import ast, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(V, "checks", p.lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=p, reason="no check built (yet); not claimed"))
        continue
    c = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "").isupper():
            try:
                c[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    checks.append(dict(property=p, quick_cmd=f"./check {p} --tier quick", thorough_cmd=f"./check {p} --tier thorough",
                       evidence_file=f"evidence/{p}.json",
                       technique=c.get("TECHNIQUE", "runtime monitoring: executions of the real code judged by an independent reference oracle"),
                       level=c.get("LEVEL", "exploration"),
                       level_note=c.get("NOTE", "Every generated execution is judged by an oracle computed independently of the code under test; "
                                        "assurance is limited to the executions explored (counts in the evidence file).")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup.py", checks=checks, not_applicable=na,
         notes="Pure-Python library: nothing is compiled; checks import /repo/src directly. No hooks were added to /repo; monitors wrap public APIs from outside.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", [x["property"] for x in na])
