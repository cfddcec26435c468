#!/usr/bin/env python3
"""dev tool: regenerate contracts/thresholds.json, the numbers the reference sources compare with (guides sampling on changed code)"""
import json
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
code = "import json; from dv.concrete import code_thresholds; print(json.dumps(code_thresholds()))"
r = subprocess.run(["/opt/venv/bin/python", "-c", code], cwd=HERE, capture_output=True, text=True, check=True)
v = json.loads(r.stdout)
json.dump(v, open(os.path.join(HERE, "contracts", "thresholds.json"), "w"))
print(len(v), "thresholds", file=sys.stderr)
