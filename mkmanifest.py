"""Writes MANIFEST.json: a property with a contract module is claimed at level "proof", the others at "exploration"."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
NOTES = json.load(open(os.path.join(HERE, "levels.json")))
checks = []
for i in ids:
    proved = os.path.exists(os.path.join(HERE, "vc", "contracts", i.lower() + ".py"))
    checks.append({
        "property": i,
        "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
        "technique": ("contract-based deductive verification: obligations generated on every run from /repo's Python source (symbolic weakest preconditions), discharged by z3/cvc5; the same contract evaluated at run time on the real code for witnesses"
                      if proved else "contracts of the real code evaluated at run time on seeded inputs (bounded stand-in: no obligation of this property is discharged deductively)"),
        "level": "proof" if proved else "exploration",
        "level_note": NOTES.get(i, "see DESIGN.md"),
    })
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3'", "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
