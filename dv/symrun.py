"""python3-vt -m dv.symrun MODULE CONTRACT --seed S --seconds T  -> JSON on stdout (deductive back end)"""
import argparse
import importlib
import json
import sys
import time

sys.setrecursionlimit(20000)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("module")
    p.add_argument("contract")
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--seconds", type=float, default=60)
    p.add_argument("--per-ob", type=float, default=12)
    p.add_argument("--paths", type=int, default=160)
    a = p.parse_args()
    t0 = time.time()
    from .loader import Loader
    from .run import run_contract
    from .prove import STATS, clock
    mod = importlib.import_module(a.module)
    c = getattr(mod, a.contract)
    shared = {}

    def factory():
        if "l" not in shared:
            shared["l"] = Loader()
        return shared["l"]
    r = run_contract(a.contract, c, factory, seed=a.seed, max_paths=getattr(c, 'max_paths', a.paths), deadline=clock() + a.seconds,
                     force_bounded=getattr(c, "bounded", False), per_ob=a.per_ob)
    out = dict(contract=a.contract, mode=r.mode, paths=r.paths, time=round(time.time() - t0, 2), unsupported=r.unsupported[:4],
               first_unsupported=getattr(r, "first_unsupported", []), trusted=sorted(r.trusted), notes=sorted(r.notes), calls=sorted(r.calls),
               stats=STATS, obs=[dict(o, choice=[[n, repr(v)] for n, v in o["choice"]]) for o in r.obs],
               sources=sorted(shared["l"].sources) if "l" in shared else [])
    json.dump(out, sys.stdout, default=str)


if __name__ == "__main__":
    main()
