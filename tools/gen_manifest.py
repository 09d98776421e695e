#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks in props.py and the table here."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "interprocedural abstract interpretation of rustc MIR (custom driver)"
NOTE = ("Decided from /repo's compiled MIR without running it: for each key type of a fixed corpus, every content and every outcome of the "
        "client's choices is covered at once by a disjunctive abstract domain; obligations the domain cannot follow are reported as undecided in the "
        "evidence, not as passes. Trusts the analyser's transfer functions, rustc, and (hashed keys only) a bounded model of hashbrown.")
NA = {
}
def main():
    checks, na = [], []
    ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
    for i in ids:
        if i in props.PROPS:
            t, note = props.META.get(i, (AI, NOTE))
            checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s" % i,
                           "thorough_cmd": "python3 tools/check.py %s --thorough" % i,
                           "technique": t, "level": "other", "level_note": note})
        else:
            na.append({"property": i, "reason": NA.get(i, "No check is registered for it yet.")})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo. See DESIGN.md; known-findings.txt lists the defects repaired in /repo."}
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
