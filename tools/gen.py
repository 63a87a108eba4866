#!/usr/bin/env python3
# Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below, so that the two stay in step.
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NOTE = ("Exhaustive within the bounds in quantifier.text and the evidence file (every execution of the bounded space is run on the real code "
        "and compared with the reference model); trusts the reference models in harness/ref and the explorer harness/mc; says nothing beyond the bounds.")
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech="", note="", claimed=True, na=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, tech=tech, note=note, claimed=claimed, na=na))
exec(open(os.path.join(HERE, "tools", "props_table.py")).read())

for p in P:
    p["claimed"] = p["claimed"] and os.path.exists(os.path.join(HERE, "harness", "props", p["id"].lower() + ".go"))
    if not p["claimed"] and not p["na"]:
        p["na"] = "check not built yet"
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = list(p["observe"])
        a["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")

m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "bash /verif/run.sh %s quick" % p["id"],
                 "thorough_cmd": "bash /verif/run.sh %s thorough" % p["id"],
                 "technique": p["tech"], "level": "model_checking", "level_note": p["note"] or NOTE} for p in P if p["claimed"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if not p["claimed"]],
     "notes": "No hooks in /repo: the harness (module /verif/harness) links the working tree of /repo through its exported API only. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
