"""C21 memory safety of the compiled kernels, symbolic sizes."""
import time

import numpy as np
from symx import probe, runner
from symx.runner import Harness, validate

ASSUMPTIONS = [
    "dimensions up to the stated bound, of any memory layout",
    "floating-point values are arbitrary: each comparison may go either way",
    "the LLVM IR at -O2 of the unmodified source, against a stand-in for "
    "pybind11's array classes, is what is executed",
]


def shapes_of(w, name, ndims):
    return [[int(w.nonneg(f"d{i}_{k}")) for k in range(n)]
            for i, n in enumerate(ndims)]


def kernel(w, name, ndims, bound, gil=False, **_):
    """concrete form (symbolic runs use shape_sym)."""
    nd = list(ndims)
    if w.point.get("wrong", -1) >= 0:
        nd[int(w.point["wrong"])] = int(w.point["rank"])
    shapes = shapes_of(w, name, nd)
    if w.point.get("isolated"):
        w.realmods("_hmmc")
        f = (probe.lock_failures if gil else probe.memory_failures)(
            w.realmods.scratch, runner.REPO, name, shapes)
    else:
        f, _ = probe.probe(w.k, name, shapes)
    w.checked += 1
    for x in f:
        w.fail(f"{name}{tuple(map(tuple, shapes))}: {x}")


def shape_sym(h, res, real, limit):
    import z3
    from symx import shapes
    from symx.engine import Infeasible
    from symx.llir import GilViolation, MemViolation
    from symx.poly import Unsupported
    name, ndims = h.params["name"], h.params["ndims"]
    bound, gil = h.params["bound"], h.params.get("gil", False)
    eng = shapes.ShapeEngine(int(min(20, limit) * 1000))
    box = shapes.Box(eng, gil=gil)
    dims, outs = probe.SPEC[name]
    end = time.time() + limit
    cand, reps = [], []
    state = {}

    def point(m, isolated):
        p = {}
        for i, s in enumerate(state["shapes"]):
            for k, d in enumerate(s):
                v = m.eval(d, True) if m is not None else z3.IntVal(1)
                p[f"d{i}_{k}"] = float(v.as_long())
        if isolated:
            p["isolated"] = 1.
        if state["wrong"] is not None:
            p["wrong"], p["rank"] = map(float, state["wrong"])
        return p

    def report(label, m):
        if len([c for c in cand if c[0] == label]) < 2:
            cand.append((label, [point(m, True)], []))

    def goal(label, c):
        res["obligations"] += 1
        r, m = eng.prove(c)
        if r == "proved":
            res["discharged"] += 1
        elif r == "refuted":
            report(label, m)
        else:
            res["undecided"].append(label)

    def go():
        if time.time() > end:
            raise TimeoutError
        box.setup()
        nd = list(ndims)
        state["wrong"] = None
        if h.params.get("ranks"):
            i = eng.choose(len(nd))
            r = [k for k in range(4) if k != nd[i]][eng.choose(3)]
            state["wrong"] = i, r
            nd[i] = r
        sh = state["shapes"] = [[z3.Int(f"d{i}_{k}") for k in range(n)]
                                for i, n in enumerate(nd)]
        # the sizes of the frame likelihoods bound the loops, those of the
        # other arguments reach as far as a product of two of them
        ref = max(i for i, d in enumerate(dims) if d == "sc")
        for i, s in enumerate(sh):
            for x in s:
                eng.assume(z3.And(
                    x >= 0, x <= (bound if i == ref else bound * bound)))
        env, same = {}, []
        for d, s in zip(dims, sh):
            for x, n in zip(d, s):
                if env.setdefault(x, n) is not n:
                    same.append(env[x] == n)
        same = z3.And(*same) if same else z3.BoolVal(True)
        if state["wrong"] is not None:
            same = z3.BoolVal(False)
        box.found.clear()
        before = box.obligations, box.discharged
        kind = None
        try:
            kind, val = box.run(name, sh)
        except GilViolation as e:
            report(str(e), eng.check()[1])
        except MemViolation as e:
            # under the lock property: only its own obligations count
            report(str(e), getattr(e, "model", None) or eng.check()[1])
        except Unsupported as e:
            res["undecided"].append(str(e))
        finally:
            res["obligations"] += box.obligations - before[0]
            res["discharged"] += box.discharged - before[1]
            for what, m in box.found:
                report(what, m)
        if kind is None:
            return
        if gil:
            if kind == "ok":
                s = env.get("s", z3.IntVal(1))
                goal("the recursion runs with the lock released",
                     z3.Or(env["c"] < 1, s - 1 <= box.released))
            else:
                res["obligations"] += 1
                res["discharged"] += 1
        elif kind == "ok":
            goal("mismatched sizes are rejected", same)
            for i, (o, d) in enumerate(zip(val, outs)):
                if (o is None) != (d == ""):
                    report(f"result {i} has another type", eng.check()[1])
                elif o is not None:
                    goal(f"shape of result {i}", z3.And(*[
                        a == env[x] for a, x in zip(o, d)])
                        if len(o) == len(d) else z3.BoolVal(False))
        elif "range_error" not in val:
            goal("matching sizes are accepted", z3.Not(z3.And(
                same, *[x > 0 for x in env.values()])))
        if len(reps) < h.params.get("reps", 40) and not box.found:
            k, m = eng.check()
            if m is not None:
                reps.append(([point(m, False)], []))
        _ = Infeasible

    try:
        res["paths"] = len(eng.explore(go))
    except TimeoutError:
        res["undecided"].append("time limit")
    except Exception as e:   # noqa
        res["undecided"].append(f"{type(e).__name__}: {e}")
    res["stats"] = eng.stats.as_dict()
    res["kernels"] = [name]
    res["samples"].append(dict(harness=h.name, goals=[
        "every access inside its array", "every result cell written",
        "arguments unchanged", "sizes checked"]))
    validate(h, res, real, cand, reps, [])


def harnesses(tier):
    hs = []
    b = 3 if tier == "quick" else 4
    for name, (dims, outs) in probe.SPEC.items():
        nd = [len(d) for d in dims]
        hs.append(Harness(
            f"sizes-{name}", kernel, dict(name=name, ndims=nd, bound=b),
            symrun=shape_sym, cost=60, limit=300 if tier == "quick" else 780,
            bound=f"{name}: every dimension of the frame likelihoods from 0 "
            f"to {b}, of every other argument from 0 to {b * b}, all "
            "independent"))
        hs.append(Harness(
            f"ranks-{name}", kernel, dict(name=name, ndims=nd, bound=2,
                                          ranks=True),
            symrun=shape_sym, cost=30, limit=200,
            bound=f"{name}: one argument of another rank (0 to 3), "
            "dimensions from 0 to 2 (4 in the other arguments)"))
    return hs


_ = np
