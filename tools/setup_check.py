"""setup: nothing is built; verify that the two interpreters and the tools the checks use are there"""
import os
import subprocess
import sys

for cmd in (["/opt/veriftools/pyvenv/bin/python", "-c", "import z3, mpmath, sympy"],
            ["/opt/venv/bin/python", "-c", "import numpy, scipy, mpmath"]):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        sys.exit(f"missing: {cmd}: {r.stderr}")
r = subprocess.run(["/opt/veriftools/pyvenv/bin/python", os.path.join(os.path.dirname(os.path.abspath(__file__)), "selftest.py")],
                   capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
print(r.stdout[-400:])
if r.returncode:
    sys.exit("selftest of the verifier failed: " + r.stdout[-2000:] + r.stderr[-2000:])
print("setup ok")
