#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, subprocess
I, C, H, F, P = ("inputs", "configurations", "histories", "fault_sequences", "programs")
props = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, claim=None, na=None, tech=None):
    props.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                      files=files, mech=mech, observe=observe or [], claim=claim, na=na, tech=tech))

TECH = "contract-based deductive verification: Go SSA of /repo -> verification conditions -> z3/cvc5/polynomial ring, per contract"
exec(open(__file__.replace("meta.py", "props.py")).read())

with open("/verif/properties.jsonl", "w") as f:
    for p in props:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "bash /verif/check.sh build",
     "hooks": {"guard": "verif", "enable": "contracts are laid over /repo as extra files with build tag verif (go list -overlay); nothing guarded is committed in /repo", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    if p["claim"]:
        m["checks"].append({"property": p["id"], "quick_cmd": "bash /verif/check.sh " + p["id"],
            "thorough_cmd": "bash /verif/check.sh " + p["id"] + " thorough",
            "evidence_file": "evidence/" + p["id"] + ".json",
            "technique": p["tech"] or TECH, "level": "proof", "level_note": p["claim"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
