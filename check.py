#!/usr/bin/env python3
"""Check one property:  python3 check.py C01 [--thorough]

Runs every contract of contracts/<id>.py (and the contracts it depends on)
 * through the deductive back end (dv.symrun) - all obligations generated from /repo's current sources -
 * and through the concrete back end (dv.concrete) on the real library (replay of counterexamples,
   bounded stand-in for clauses outside the verifier's reach),
writes evidence/<id>.json and prints the verdict."""
import argparse
import concurrent.futures as cf
import json
import os
import re
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VT = "/opt/veriftools/pyvenv/bin/python"
if not os.path.exists(VT):
    VT = "python3-vt"
PY = "/opt/venv/bin/python"


def env_sym():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_REPO=REPO, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    e.pop("PYTHONPATH", None)
    return e


def env_con():
    e = env_sym()
    e.update(LC_ALL="C.UTF-8", OPENBLAS_CORETYPE="Haswell", NUMEXPR_NUM_THREADS="1", MPLBACKEND="agg")
    return e


def contracts_of(prop):
    """contract functions of contracts/<prop>.py, in order"""
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    import importlib
    m = importlib.import_module("contracts." + prop)
    names = [(f"contracts.{prop}", n) for n, v in vars(m).items() if n.startswith("c_") and callable(v)]
    deps = []
    for s in getattr(m, "DEPENDS", ()):
        d, _, f = s.partition(":")
        deps.append((f"contracts.{d}", f))
    return names + deps


def run_json(cmd, env, timeout):
    try:
        p = subprocess.run(cmd, cwd=HERE, env=env, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    try:
        return json.loads(p.stdout), p.stderr[-1500:]
    except ValueError:
        return None, (p.stderr or p.stdout)[-3000:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--sym-only", action="store_true")
    ap.add_argument("--con-only", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    tier = "thorough" if a.thorough or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    th = tier == "thorough"
    sym_s, per_ob = (600, 60) if th else (75, 12)
    con_s, con_n = (240, 8000) if th else (30, 1000)
    items = contracts_of(prop)
    if a.only:
        items = [x for x in items if re.search(a.only, x[1])]
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")

    def sym(item, scale=1):
        m, c = item
        return run_json([VT, "-m", "dv.symrun", m, c, "--seed", str(seed), "--seconds", str(sym_s * scale), "--per-ob", str(per_ob * scale)],
                        dict(env_sym(), VERIF_SCALE=str(2 * scale - 1)), sym_s * scale * 2 + 120)  # limits are CPU time, the last one wall time

    def con(item, runs=None, secs=None, s=None):
        m, c = item
        return run_json([PY, "-m", "dv.concrete", m, c, "--seed", str(seed if s is None else s), "--runs", str(runs or con_n),
                         "--seconds", str(secs or con_s)], env_con(), (secs or con_s) * 3 + 120)

    def replay(item, model, tag):
        f = os.path.join(scratch, f"m{tag}.json")
        with open(f, "w") as fh:
            json.dump({"inputs": model}, fh)
        return run_json([PY, "-m", "dv.concrete", item[0], item[1], "--replay", f], env_con(), 120)

    S, C = {}, {}
    with cf.ThreadPoolExecutor(8) as ex:
        fs = {} if a.con_only else {ex.submit(sym, i): i for i in items}
        fc = {} if a.sym_only else {ex.submit(con, i): i for i in items}
        for f in cf.as_completed([*fs, *fc]):
            if f in fs:
                S[fs[f]] = f.result()
            else:
                C[fc[f]] = f.result()

    expected = load_expected()

    def missing(item, r):
        """obligations accepted on the reference tree that are not accepted (or not generated) in this run"""
        key = f"{item[0].split('.')[1]}.{item[1]}:"
        obs = [o for o in r["obs"] if not o["bounded"]] if r else []
        bad = {o["name"] for o in obs if o["status"] != "proved"} | ({x[len(key):] for x in expected if x.startswith(key) and not x.endswith(":*")} - {o["name"] for o in obs})
        return sum(key + x in expected for x in bad)
    confirmed = any(r is None or any(d["failures"] or d["error_samples"] for d in r.values()) for r, _ in C.values())
    again = [] if confirmed or th or not C else [i for i in S if missing(i, S[i][0])]
    if again and a.v:
        print("again", [i[1] for i in again])
    if again:  # solver limits may have been hit: once more with larger ones before anything is reported
        with cf.ThreadPoolExecutor(8) as ex:
            for i, r in zip(again, ex.map(lambda i: sym(i, 3), again)):
                if r[0] is not None and (S[i][0] is None or missing(i, r[0]) < missing(i, S[i][0])):
                    S[i] = r

    known = load_known(prop)
    violations, undecided, bounded, known_hits, notes = [], [], [], [], []
    nob = ndis = nbnd = 0
    by_backend, trusted, calls, samples, sources = {}, set(), set(), [], set()
    solver = dict(z3_time=0.0, z3_calls=0, norm_time=0.0, norm_calls=0)
    per_contract = {}
    for item in items:
        m, c = item
        key = f"{m.split('.')[1]}.{c}"
        pc = per_contract.setdefault(key, {})
        # ---- concrete back end on the real code
        if item in C:
            r, err = C[item]
            if r is None:
                # the library could not be imported or the process died: report, with its output
                violations.append(dict(contract=key, clause="real code runs", detail=err, confirmed=(err != "timeout")))
                pc["concrete"] = "died: " + str(err)[-300:]
            else:
                d = r[c]
                pc["concrete"] = dict(runs=d["runs"], evaluated=d["ok"], discarded=d["discarded"], clauses=d["checked"], errors=d["errors"])
                calls |= set(d["calls"])
                for f in d["failures"]:
                    violations.append(dict(contract=key, clause=f["clause"], detail=f, inputs=f.get("inputs"), confirmed=True))
                for e in d["error_samples"]:
                    violations.append(dict(contract=key, clause="result usable as specified", detail=e["error"], inputs=e["inputs"], confirmed=True))
                if d["ok"] and len(samples) < 4:
                    samples.append({"contract": key, "clauses_checked_on_real_code": d["checked"]})
        # ---- deductive back end
        if item not in S:
            continue
        r, err = S[item]
        if r is None:
            notes.append(f"{key}: deductive back end gave no result ({str(err)[-200:]})")
            pc["deductive"] = "no result: " + str(err)[-300:]
            bounded.append(key)
            continue
        trusted |= set(r["trusted"])
        calls |= set(r["calls"])
        sources |= set(r["sources"])
        for k_ in solver:
            solver[k_] += r["stats"].get(k_, 0)
        st = {}
        for o in r["obs"]:
            st[o["status"]] = st.get(o["status"], 0) + 1
        pc["deductive"] = dict(mode=r["mode"], paths=r["paths"], obligations=len(r["obs"]), **st,
                               seconds=r["time"], outside_fragment=(r["first_unsupported"] or r["unsupported"])[:2])
        if r["unsupported"]:
            bounded.append(f"{key}: {r['unsupported'][0][:160]}")
        for n, o in enumerate(r["obs"]):
            if o["bounded"]:
                nbnd += 1
            else:
                nob += 1
            if o["status"] == "proved":
                if not o["bounded"]:
                    ndis += 1
                b = ("bounded:" if o["bounded"] else "") + o["backend"]
                by_backend[b] = by_backend.get(b, 0) + 1
            elif o["status"] == "refuted":
                rr, e2 = replay(item, o.get("model") or {}, f"{key}-{n}") if not a.sym_only else (None, "")
                fl = rr[c]["failures"] if rr else []
                if fl:
                    violations.append(dict(contract=key, clause=o["name"], obligation=o.get("goal"), facts=o.get("facts"), choice=o["choice"],
                                           verifier=f"refuted by {o['backend']}", exc=o.get("exc"), inputs=fl[0]["inputs"], detail=fl[0], confirmed=True))
                else:
                    # the counter-model does not fail on the code that runs: the obligation is not discharged, and not a violation by itself
                    undecided.append(dict(contract=key, clause=o["name"], choice=o["choice"], bounded=o["bounded"], goal=o.get("goal"), refuted=not o.get("directed"),
                                          timeout=bool(o.get("directed") and o.get("timeout")),
                                          error=f"counter-model not confirmed by the real code; {o.get('exc') or ''}"))
            else:
                undecided.append(dict(contract=key, clause=o["name"], choice=o["choice"], bounded=o["bounded"], goal=o.get("goal"), error=o.get("error"), timeout=o.get("timeout")))
    def finding(v):
        return next((x for x in known if x["contract"] == v["contract"] and re.fullmatch(x["clause"], v["clause"])
                     and re.search(x["match"], json.dumps(v, default=str))), None)

    def confirmed():
        return any(v["confirmed"] and not finding(v) for v in violations)
    # ---- obligations the verifier used to accept and no longer does
    lost = []
    for u in undecided:
        if u["bounded"]:
            continue
        if (u.get("refuted") and u["contract"] + ":*" in expected) or (not u.get("timeout") and f"{u['contract']}:{u['clause']}" in expected):
            lost.append(u)
    # ---- contracts whose obligations could not even be generated any more (changed code outside the verifier's fragment): bounded check only
    degraded = set()
    if not a.con_only:
        for item in items:
            key = f"{item[0].split('.')[1]}.{item[1]}"
            r = S.get(item, (None, ""))[0]
            have = {f"{key}:{o['name']}" for o in r["obs"] if not o["bounded"]} if r else set()
            if any(x.startswith(key + ":") and not x.endswith(":*") for x in expected - have):
                degraded.add(key)
        if degraded:
            notes.append("outside the verifier's fragment in the current tree, bounded check with the larger budget: " + ", ".join(sorted(degraded)))
    if (lost or degraded) and not confirmed() and not a.sym_only:
        # search a failing input on the real code with a larger budget
        its = {f"{m.split('.')[1]}.{c}": (m, c) for m, c in items}
        keys = sorted({u["contract"] for u in lost} | degraded)
        with cf.ThreadPoolExecutor(8) as ex:
            more = list(ex.map(lambda key: con(its[key], runs=con_n * 8, secs=60, s=seed + 1), keys))
        for key, (r, err) in zip(keys, more):
            if r and r[its[key][1]]["failures"]:
                f = r[its[key][1]]["failures"][0]
                violations.append(dict(contract=key, clause=f["clause"], detail=f, inputs=f.get("inputs"), confirmed=True))
        if not confirmed():
            for u in lost:
                violations.append(dict(contract=u["contract"], clause=u["clause"], obligation=u["goal"], choice=u["choice"],
                                       verifier="not accepted (was discharged on the reference tree)", confirmed=False,
                                       detail="no failing input found"))
    # ---- known findings
    real = []
    for v in violations:
        kf = finding(v)
        (known_hits if kf else real).append(v)
        if kf and kf["line"] not in notes:
            notes.append(kf["line"])
            print(kf["line"])
    os.system(f"rm -rf {scratch}")
    assumptions = BASE_ASSUMPTIONS + sorted(trusted)
    nconc = sum(p["concrete"]["evaluated"] for p in per_contract.values() if isinstance(p.get("concrete"), dict))
    if a.only or a.sym_only or a.con_only:
        pass
    ev = dict(property=prop, tier=tier, seed=seed, level="proof" if ndis else "other", wall_s=round(time.time() - t0, 2),
              violations=len(real), assumptions=assumptions,
              coverage=dict(obligations=nob, discharged=ndis, checker_cmd=f"python3 check.py {prop}" + (" --thorough" if th else ""),
                            trusted_base=TRUSTED + sorted(trusted),
                            explanation="obligations/discharged count unbounded obligations (all sizes, all values, all paths); bounded ones are listed apart and never counted as proved",
                            by_backend=by_backend, solver_seconds={k: round(v, 3) for k, v in solver.items()},
                            functions_under_contract=sorted(calls), modules_executed=sorted(sources),
                            bounded_obligations=nbnd, bounded_contracts=bounded, undecided=[{k: u[k] for k in ("contract", "clause", "choice", "bounded")} for u in undecided],
                            evaluations=nconc, rule="concrete evaluations of the contracts on the real library (bounded, not counted as proved)",
                            per_contract=per_contract, samples=samples, notes=notes))
    if not a.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    if a.v:
        for k_, v in per_contract.items():
            print(k_, json.dumps(v.get("deductive")), "| con:", {x: y for x, y in v["concrete"].items() if x != "clauses"} if isinstance(v.get("concrete"), dict) else v.get("concrete"))
        seen = {}
        for u in undecided:
            seen.setdefault((u["contract"], u["clause"]), []).append(u)
        for (cc, cl), us in seen.items():
            print(f"  UNDECIDED x{len(us)}", cc, cl, us[0]["choice"], str(us[0]["goal"])[:260], us[0].get("error") or "")
    print(f"{prop}: {ndis}/{nob} obligations discharged (all sizes), {nbnd} bounded obligations, {len(undecided)} undecided, "
          f"{nconc} evaluations on the real code, {round(time.time()-t0,1)} s")
    if real:
        rd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        real.sort(key=lambda v: not v["confirmed"])
        path = os.path.join(rd, f"{prop}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, replay=f"{PY} -m dv.concrete contracts.<module> <contract> --replay <file with the inputs>",
                           violations=real[:12]), f, indent=1, default=str)
        for v in real[:8]:
            d = v["detail"]
            if isinstance(d, dict):
                d = {k: d[k] for k in d if k != "inputs"}
            print("  failed obligation", v["contract"], v["clause"], "-", str(d)[:300], "" if v["confirmed"] else "(not replayed)")
        tail = "" if real[0]["confirmed"] else " no-failing-input-found"
        print(f"VIOLATION property={prop} replay={path}{tail}")
        return 1
    return 0


BASE_ASSUMPTIONS = [
    "machine arithmetic is treated as mathematical: float64/complex128 as exact reals/complexes, int64 as unbounded integers; rounding and overflow are outside the proof (concrete evaluations compare with a tolerance)",
    "points where a denominator of the executed formula vanishes are excluded unless the contract names them",
]
TRUSTED = [
    "dv/ (this verifier): numpy shim semantics (arr.py, snp.py), normaliser (norm.py), case splitting (prove.py)",
    "z3 (linear/nonlinear arithmetic side conditions)",
]


def load_known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        for e in json.load(open(p)).get("known", []):
            if e["property"] == prop:
                out.append(e)
    return out


def load_expected():
    p = os.path.join(HERE, "contracts", "expected.json")
    return set(json.load(open(p))) if os.path.exists(p) else set()


if __name__ == "__main__":
    sys.exit(main())
