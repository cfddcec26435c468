"""Run contracts symbolically: path enumeration, discharge, refutation."""
import time
import traceback
from .arr import Unsupported, PathLimit
from .kit import World, SymKit, PathDone, PathSkip
from .prove import clock, generalise, refute, STATS
from . import kit
from .term import TRUE, FALSE, T, numval, show
from .evalt import EvalError
from .norm import TooBig
import random
from mpmath import mpf


class Result:
    def __init__(self, name):
        self.name = name
        self.obs = []            # dict(name, status, backend, ...)
        self.paths = 0
        self.unsupported = []
        self.trusted = set()
        self.notes = set()
        self.calls = set()
        self.mode = "unbounded"
        self.time = 0.0


def run_contract(name, c, loader_factory, seed=1, max_paths=64, deadline=None, force_bounded=False, per_ob=12.0):
    t0 = clock()
    if force_bounded == "label":
        # sizes of loops are fixed by choices of the contract: symbolic execution, obligations labelled bounded
        res2 = run_contract(name, c, loader_factory, seed, max_paths, deadline, False, per_ob)
        for o in res2.obs:
            o["bounded"] = True
        res2.mode = "bounded"
        return res2
    if force_bounded:
        res = _run(name, c, loader_factory, seed, max_paths, deadline, True, per_ob, None)
        res.mode = "bounded"
    else:
        res = _run(name, c, loader_factory, seed, max_paths, deadline, False, per_ob, None)
        res.mode = "unbounded"
        if res.unsupported:
            # choices outside the unbounded fragment: unroll over small sizes (bounded)
            r2 = _run(name, c, loader_factory, seed, max_paths, deadline, True, per_ob, res.unsupported_choices)
            res.first_unsupported = res.unsupported[:3]
            res.unsupported = r2.unsupported
            res.mode = "mixed" if res.obs else "bounded"
            res.obs += r2.obs
            res.paths += r2.paths
            res.trusted |= r2.trusted
            res.notes |= r2.notes
            res.calls |= r2.calls
    res.time = clock() - t0
    return res


def _run(name, c, loader_factory, seed, max_paths, deadline, bounded, per_ob, allowed):
    res = Result(name)
    res.unsupported_choices = []
    stack = [[]]
    seen = 0
    loader = loader_factory()
    while stack:
        if seen >= max_paths or (deadline and clock() > deadline):
            res.unsupported.append(f"path limit ({seen} paths explored)")
            break
        prefix = stack.pop()
        seen += 1
        w = World(prefix, bounded, loader, seed)
        w.allowed = allowed
        k = SymKit(w)
        status = "ok"
        try:
            c(k)
        except PathDone:
            status = "done"
        except PathSkip:
            status = "skip"
        except Unsupported as e:
            status = "unsupported"
            res.unsupported.append(f"{e} @ {_where()}")
        except PathLimit as e:
            status = "unsupported"
            res.unsupported.append(str(e))
        except TooBig:
            status = "unsupported"
            res.unsupported.append("normaliser budget")
        except RecursionError:
            status = "unsupported"
            res.unsupported.append("recursion")
        except Exception as e:      # an error of the contract or of a shim: not a verdict on the code
            status = "unsupported"
            res.unsupported.append(f"engine: {type(e).__name__}: {e} @ {_where()}")
        if status == "unsupported" and not bounded:
            res.unsupported_choices.append({l: r for l, r, _ in w.trace if l.startswith("choice:")})
        res.paths += 1
        res.trusted |= w.trusted
        res.notes |= w.notes
        res.calls |= set(w.calls)
        # siblings
        for i in range(len(prefix), len(w.trace)):
            lab, taken, n = w.trace[i]
            for alt in range(taken + 1, n):
                stack.append([t[1] for t in w.trace[:i]] + [alt])
        # path feasibility (vacuity guard): a path is a witness if a sample satisfies its condition
        choice = tuple((nm, v[1]) for nm, v in w.inputs.items() if v[0] == "choice")
        for ob in w.obligations:
            discharge(res, w, ob, seed, per_ob, deadline, choice, bounded)
    return res


def _where():
    import sys
    tb = sys.exc_info()[2]
    fr = traceback.extract_tb(tb)
    for f in reversed(fr):
        if "/gftool/" in f.filename:
            return f"{f.filename.split('/gftool/')[-1]}:{f.lineno}"
    f = fr[-1]
    return f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}"


def discharge(res, w, ob, seed, per_ob, deadline, choice, bounded):
    w.__class__.current = w
    from .arr import World as B
    B.current = w
    t0 = clock()
    goal, ctx = ob["goal"], ob["ctx"]
    rec = dict(name=ob["name"], choice=choice, bounded=bounded, exc=ob.get("exc"))
    z0, n0 = STATS["z3_calls"], STATS["norm_calls"]
    if goal is TRUE:
        rec.update(status="proved", backend="syntactic")
    else:
        # cheap refutation first
        env, valid = refute(w, ctx, goal, seed=seed, tries=10, deadline=clock() + 2.5)
        rec["samples"] = valid
        if env is not None:
            rec.update(status="refuted", backend="evaluation", goal=show(goal)[:1500], model=model_of(w, env),
                       facts=[show(f)[:200] for f in ctx.facts][:20])
        else:
            dl = clock() + per_ob
            if deadline:
                dl = min(dl, deadline)
            try:
                ok = ctx.prove(goal, dl)
            except (RecursionError, TooBig):
                ok = False
            except Exception as e:
                ok = False
                rec["error"] = f"{type(e).__name__}: {e}"
            if not ok and clock() < dl:
                try:
                    gen = generalise(ctx, goal)
                    ok = gen is not None and gen[0].prove(gen[1], dl)
                except Exception:
                    ok = False
            if ok:
                be = []
                if STATS["norm_calls"] > n0:
                    be.append("normaliser")
                if STATS["z3_calls"] > z0:
                    be.append("z3")
                rec.update(status="proved", backend="+".join(be) or "syntactic")
            else:
                env, v2 = refute(w, ctx, goal, seed=seed + 1000, tries=40, deadline=clock() + 4)
                slow = clock() - t0 > 0.6 * per_ob or bool(deadline and clock() > deadline)
                if env is None:     # directed by the constants of the obligation
                    kit.DICT[:] = constants(goal)
                    try:
                        if kit.DICT:
                            env, v3 = refute(w, ctx, goal, seed=seed + 2000, tries=120, deadline=clock() + 6)
                            rec["directed"] = True
                            v2 += v3
                    finally:
                        kit.DICT[:] = []
                rec["samples"] = valid + v2
                if env is not None:
                    rec.update(status="refuted", backend="evaluation", goal=show(goal)[:1500], model=model_of(w, env),
                               timeout=slow, facts=[show(f)[:200] for f in ctx.facts][:20])
                else:
                    rec.update(status="unknown", backend="none", timeout=slow, goal=show(goal)[:600], facts=[show(f)[:200] for f in ctx.facts][:20])
    rec["time"] = clock() - t0
    res.obs.append(rec)


def constants(t):
    """numbers in the comparisons of a formula"""
    out, seen, todo = set(), set(), [(t, False)]
    while todo:
        x, inc = todo.pop()
        if (x, inc) in seen:
            continue
        seen.add((x, inc))
        if x.op == "num":
            v = abs(numval(x))
            v = mpf(v.numerator) / v.denominator
            if inc and v not in (0, 1, 2):
                out.add(v)
            continue
        if x.op == "ite":
            todo += [(x.args[0], True), (x.args[1], inc), (x.args[2], inc)]
            continue
        todo += [(a, inc) for a in x.args if isinstance(a, T)]
    return sorted(out)[:40]


def model_of(w, env):
    """concrete inputs of a counterexample"""
    import itertools
    import mpmath
    from .evalt import ev
    from .arr import dim_term
    out = {}

    def j(v):
        if isinstance(v, (bool, int)):
            return int(v)
        if isinstance(v, mpmath.mpc):
            return [float(v.real), float(v.imag)]
        return float(v)
    for nm, v in w.inputs.items():
        try:
            if v[0] == "choice":
                out[nm] = {"choice": repr(v[1])}
            elif v[0] == "dim":
                out[nm] = {"dim": v[1] if isinstance(v[1], int) else int(env.vars[nm])}
            else:
                r = v[1]
                dims = [int(ev(d, env)) for d in r.sh]
                if not dims:
                    val = j(ev(r.get0(()), env))
                else:
                    from .term import num
                    val = [j(ev(r.get0(tuple(num(i) for i in idx)), env)) for idx in itertools.product(*[range(d) for d in dims])]
                out[nm] = {"kind": r.kind, "shape": dims, "value": val}
        except Exception as e:
            out[nm] = {"error": str(e)}
    return out
