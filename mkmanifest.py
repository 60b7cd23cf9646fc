"""regenerates MANIFEST.json (levels are chosen here, by hand)"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
import levels
checks = []
for p in props:
    lv, tech, note = levels.LEVELS[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd="python3-vt check.py " + p["id"],
                       thorough_cmd="VERIF_TIER=thorough python3-vt check.py " + p["id"],
                       evidence_file="evidence/%s.json" % p["id"], technique=tech, level=lv, level_note=note))
json.dump(dict(version=1, setup_cmd="python3-vt -c \"import z3\" && mkdir -p evidence", checks=checks, not_applicable=levels.NOT_APPLICABLE,
               notes="see DESIGN.md; known findings in known_findings.txt"), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
