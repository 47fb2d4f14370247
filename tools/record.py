"""record.py ID HASHPREFIX TEXT : add a fixed entry to known_findings.json (used while developing, never by a check)"""
import json, sys, pathlib
p = pathlib.Path(__file__).parent.parent / "known_findings.json"
d = json.load(open(p))
d["fixed"].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}")
json.dump(d, open(p, "w"), indent=1)
