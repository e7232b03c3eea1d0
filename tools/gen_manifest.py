"""Write MANIFEST.json from the list of claimed checks and properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
exec(open(os.path.join(ROOT, "tools", "claims.py")).read())
checks = []
for p in props:
    if p["id"] in CLAIMS:
        tech, note = CLAIMS[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": "python3-vt -m nd.check %s quick" % p["id"],
                       "thorough_cmd": "python3-vt -m nd.check %s thorough" % p["id"],
                       "technique": tech, "level": "other", "level_note": note})
na = [{"property": p["id"], "reason": NA.get(p["id"], "No check has been built for it yet.")} for p in props if p["id"] not in CLAIMS]
m = {"version": 1, "setup_cmd": "python3-vt -m nd.extract core all", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
