#!/usr/bin/env python3
"""dev tool: record in contracts/expected.json which unbounded obligations the verifier discharges on the reference tree
(all instances of the clause proved, none near its time limit)"""
import concurrent.futures as cf
import glob
import importlib
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/bin/python"


def run(x):
    m, c = x
    p = subprocess.run([VT, "-m", "dv.symrun", f"contracts.{m}", c, "--seconds", "75"], cwd=HERE, capture_output=True, text=True,
                       env=dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1"))
    try:
        return x, json.loads(p.stdout)
    except ValueError:
        print("no result", x, p.stderr[-300:])
        return x, None


items = []
sys.path.insert(0, HERE)
for f in sorted(glob.glob(HERE + "/contracts/C*.py")):
    m = os.path.basename(f)[:-3]
    if len(sys.argv) > 1 and m not in sys.argv[1:]:
        continue
    items += [(m, n) for n, v in vars(importlib.import_module("contracts." + m)).items() if n.startswith("c_") and callable(v)]
keep = []
if len(sys.argv) > 1:
    keep = [x for x in json.load(open(HERE + "/contracts/expected.json")) if x[:3] not in sys.argv[1:]]
out = keep
tot = prov = 0
with cf.ThreadPoolExecutor(4) as ex:
    for (m, c), r in ex.map(run, items):
        if r is None:
            continue
        by = {}
        for o in r["obs"]:
            if o["bounded"]:
                continue
            tot += 1
            prov += o["status"] == "proved"
            by.setdefault(o["name"], []).append(o)
        if by and not r["unsupported"] and all(o["status"] == "proved" for o in r["obs"]) and r["time"] < 30:
            out.append(f"{m}.{c}:*")  # every obligation of the contract is discharged
        for nm, os_ in by.items():
            if all(o["status"] == "proved" and o["time"] < 4 for o in os_) and r["time"] < 30:
                out.append(f"{m}.{c}:{nm}")
json.dump(sorted(out), open(HERE + "/contracts/expected.json", "w"), indent=0)
print(len(out), "clauses;", prov, "of", tot, "obligations proved")
