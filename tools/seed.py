#!/usr/bin/env python3
"""dev tool:  seed.py make SPEC.py   -> create seeded/<id>/ from a spec;   seed.py run ID [--no-test]  -> validate it
Applies the change to /repo's working tree, runs the stable tests, the demo and the check, and restores /repo."""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SEED_REPO", "/repo")  # a scratch clone of /repo may be used instead


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def clean():
    assert sh(f"git -C {REPO} status --porcelain").stdout.strip() == "", "repo dirty"


def restore():
    sh(f"git -C {REPO} checkout -- .")


def make(id, prop, edits, demo, needs, breaks):
    clean()
    d = os.path.join(HERE, "seeded", id)
    os.makedirs(d, exist_ok=True)
    try:
        for f, a, b in edits:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(a) == 1, (id, f, a, s.count(a))
            open(p, "w").write(s.replace(a, b))
        diff = sh(f"git -C {REPO} diff").stdout
    finally:
        restore()
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write("import os\nimport sys\nsys.path.insert(0, os.getcwd())\nimport numpy as np\nimport gftool as gt\nfrom gftool import beb, cpa, hermpade, lattice, linearprediction, matrix, pade, polepade, siam\n" + demo)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec env OPENBLAS_NUM_THREADS=2 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)


def run(id, test=True):
    clean()
    d = os.path.join(HERE, "seeded", id)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    r0 = sh(f"cd {REPO} && bash {d}/demo.sh")
    a = sh(f"git -C {REPO} apply {d}/patch.diff")
    out = dict(id=id, property=prop, demo_clean=r0.returncode, apply=a.returncode)
    try:
        if a.returncode == 0:
            r1 = sh(f"cd {REPO} && bash {d}/demo.sh")
            out["demo_patched"] = r1.returncode
            t = time.time()
            c = sh(f"cd {HERE} && VERIF_REPO={REPO} VERIF_SEED=1 VERIF_TIER=quick python3 check.py {prop}")
            out["check"] = c.returncode
            out["check_s"] = round(time.time() - t, 1)
            out["line"] = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")]
            out["first"] = next((x for x in c.stdout.splitlines() if "failed obligation" in x), "")[:160]
            if test:
                sh(f"sed 's#/repo#{REPO}#' /opt/vp/test.sh > /tmp/seed_test.sh; bash /tmp/seed_test.sh /tmp/seed_t.json")
                b = json.load(open("/opt/vp/BASELINE.json"))
                t = json.load(open("/tmp/seed_t.json"))
                ps = set(t["passed"])
                out["tests_broken"] = [x for x in b["stable"] if x not in ps][:5]
    finally:
        restore()
    print(json.dumps(out))
    return out


if __name__ == "__main__":
    if sys.argv[1] == "make":
        exec(open(sys.argv[2]).read())
    else:
        for i in sys.argv[2:]:
            if not i.startswith("--"):
                run(i, "--no-test" not in sys.argv)
