#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (and the check modules that exist)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), note="", technique=None, hook=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      state=state, observe=observe, note=note, technique=technique))


exec(open(os.path.join(HERE, "tools", "props.py")).read())

NA = {}
if os.path.exists(os.path.join(HERE, "tools", "na.json")):
    NA = json.load(open(os.path.join(HERE, "tools", "na.json")))

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": ["numba_pokemon_prngs/" + x for x in p["files"]],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")

TECH = ("symbolic execution of the package's Python source (numpy mode) and of numba's LLVM IR (compiled mode) to SMT "
        "bit-vector terms; z3 decides each assertion for all inputs in the bounds; counterexamples replayed on the real code")
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i + ".py")):
        checks.append({"property": i, "quick_cmd": f"python3 run_check.py {i} --tier quick",
                       "thorough_cmd": f"python3 run_check.py {i} --tier thorough", "evidence_file": f"evidence/{i}.json",
                       "technique": p["technique"] or TECH, "level": "model_checking", "level_note": p["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
