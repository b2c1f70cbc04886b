"""Write properties.jsonl and MANIFEST.json from tools/table.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import table
V = table.V
NOTE = ("The design is explored exhaustively by TLC within the bounds named in DESIGN.md; the implementation is bound to it by "
        "replaying TLC-generated and seeded random scenarios through the real headers and validating every recorded event with TLC. "
        "Assurance for the code is therefore bounded by the scenarios executed; the harness, the compiler and TLC are trusted.")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in table.P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": table.I + w} for n, w in p["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "TLA+ specifications in spec/, conformance harnesses in harness/, drivers in props/. No hooks are needed in /repo."}
for p in table.P:
    if p["claim"]:
        m["checks"].append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick",
                            "thorough_cmd": f"python3 check.py {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
                            "technique": p["tech"] or table.TV, "level": "model_checking",
                            "level_note": (p["note"] + " " if p["note"] else "") + NOTE})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not applicable")
