#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/meta.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "tests/ sample"
P = []


def prop(id, title, statement, text, why, files, mech, note, level="proof"):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, note=note, level=level))


exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=["inputs"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]])), ensure_ascii=False) + "\n")

m = dict(version=1, setup_cmd="python3 tools/setup_check.py",
         checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"python3 check.py {p['id']} --thorough",
                      technique="contract-based deductive verification: contracts on the public functions; obligations generated by executing the unmodified sources of /repo symbolically (dv/), discharged by dv's normaliser and z3; counterexamples replayed on the real library",
                      level=p["level"], level_note=p["note"]) for p in P if p["level"] != "na"],
         not_applicable=[dict(property=p["id"], reason=p["note"]) for p in P if p["level"] == "na"])
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties")
