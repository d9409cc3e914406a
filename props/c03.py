"""C03 Viterbi optimality."""
import math
import time

import numpy as np
from symx.runner import Harness, validate
from props.spec import joint, paths
from props.models import abstract_model, large_model

ASSUMPTIONS = ["real arithmetic: rounding is not modelled (log-weights are "
               "arbitrary reals or -inf)"]


def check_path(w, label, got, path, sp, tm, fp):
    nc, ns = len(sp), len(fp)
    path = [int(x) for x in path]
    w.true(f"{label}: length", len(path) == ns)
    w.true(f"{label}: states in range", all(0 <= x < nc for x in path))
    w.eq(f"{label}: log_prob is the joint probability of the path", got,
         w.log(joint(sp, tm, fp, path)))
    for z in paths(nc, ns):
        w.true(f"{label}: no better path {z}",
               w.le(joint(sp, tm, fp, z), joint(sp, tm, fp, path)))


def kernel(w, nc, ns):
    """concrete form (symbolic runs use kernel_sym)."""
    sp, tm, fp = w.nonnegs("p", nc), w.nonnegs("a", nc, nc), \
        w.nonnegs("b", ns, nc)
    got, path = w.k.viterbi(sp, tm, w.log(fp))
    path = [int(x) for x in path]
    w.true("length", len(path) == ns)
    w.true("states in range", all(0 <= x < nc for x in path))

    def score(z):
        with np.errstate(divide="ignore"):
            x = np.log(sp[z[0]]) + np.log(fp[0][z[0]])
            for t in range(1, ns):
                x = x + np.log(tm[z[t - 1]][z[t]]) + np.log(fp[t][z[t]])
        return x
    w.eq("log_prob is the joint probability of the path", got, score(path))
    best = max(score(z) for z in paths(nc, ns))
    w.true("no better path", got >= best - 1e-7 * (1 + abs(best))
           or got == best)


def kernel_sym(h, res, real, limit):
    import z3
    from symx import kernels, zdom
    from symx.zdom import LV, PV, iz, zand, zor
    nc, ns = h.params["nc"], h.params["ns"]
    eng = zdom.ZEngine(timeout_ms=int(limit * 1000))
    b = kernels.Bridge(eng, zdom.LogDomain(eng), inline=True)
    end = time.time() + limit
    cand, reps = [], []

    def lv(n):
        return LV(z3.Real(n), z3.Bool(n + "!"))

    names = [f"p{i}" for i in range(nc)] + \
        [f"a{i}_{j}" for i in range(nc) for j in range(nc)] + \
        [f"b{t}_{i}" for t in range(ns) for i in range(nc)]

    def point(m):
        out = {}
        for n in names:
            if z3.is_true(m.eval(z3.Bool(n + "!"), True)):
                out[n] = 0.
            else:
                v = m.eval(z3.Real(n), True)
                x = v.numerator_as_long() / v.denominator_as_long() \
                    if z3.is_rational_value(v) else float(v.approx(20)
                                                          .as_fraction())
                out[n] = math.exp(max(-300., min(300., x)))
        return out

    def obj(f, *shape):
        a = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            a[ix] = f(*ix)
        return a

    def go():
        if time.time() > end:
            raise TimeoutError
        sp = [lv(f"p{i}") for i in range(nc)]
        tm = [[lv(f"a{i}_{j}") for j in range(nc)] for i in range(nc)]
        f = [[lv(f"b{t}_{i}") for i in range(nc)] for t in range(ns)]
        r, path = b.viterbi(obj(lambda i: PV(sp[i]), nc),
                            obj(lambda i, j: PV(tm[i][j]), nc, nc),
                            obj(lambda t, i: f[t][i], ns, nc))
        r = LV.of(r)
        if len(path) != ns:
            res["obligations"] += 1
            k, m = eng.check()
            cand.append(("length", [point(m)] if m else [], []))
            return
        score = {}
        for z in paths(nc, ns):
            x = sp[z[0]] + f[0][z[0]]
            for t in range(1, ns):
                x = x + tm[z[t - 1]][z[t]] + f[t][z[t]]
            score[z] = x
        pz = [z3.IntVal(int(path[i])) if isinstance(path[i], (int, np.integer))
              else iz(path[i]) for i in range(ns)]
        goals = [
            ("states in range", zand(*[zand(p >= 0, p < nc) for p in pz])),
            ("log_prob is the joint probability of the path", zand(*[
                z3.Implies(zand(*[p == k for p, k in zip(pz, z)]), s.eq(r))
                for z, s in score.items()])),
            ("no better path", zand(*[s.le(r) for s in score.values()])),
        ]
        for lab, g in goals:
            res["obligations"] += 1
            st, m = eng.prove(g)
            if st == "proved":
                res["discharged"] += 1
            elif st == "refuted":
                cand.append((lab, [point(m)], []))
            else:
                res["undecided"].append(lab)
        k, m = eng.check()
        if m is not None:
            reps.append(([point(m)], []))

    try:
        outs = eng.explore(go)
        res["paths"] = len(outs)
    except TimeoutError:
        res["undecided"].append("time limit")
    except Exception as e:   # noqa
        res["undecided"].append(f"{type(e).__name__}: {e}")
        import random
        r = random.Random(1)
        reps += [([{n: 0. if r.random() < .15 else r.random()
                    for n in names}], []) for _ in range(200)]
    res["stats"] = eng.stats.as_dict()
    res["kernels"] = sorted(b.calls)
    res["samples"].append(dict(harness=h.name, goals=[
        "states in range", "joint probability of the path", "no better path"],
        variables=len(names)))
    validate(h, res, real, cand, reps, [])


def decoding(w, nc, ns, how, pattern):
    m, sp, tm, fp, X = abstract_model(w, nc, ns, pattern=pattern,
                                      spattern=pattern)
    if how == "decode":
        got, path = m.decode(X)
    elif how == "arg":
        m.algorithm = "map"
        got, path = m.decode(X, algorithm="viterbi")
    else:
        path = m.predict(X)
        got = w.log(joint(sp, tm, fp, [int(x) for x in path]))
    check_path(w, how, got, path, sp, tm, fp)


def larger(w, nc, ns, free):
    m, sp, tm, fp, X = large_model(w, nc, ns, free=free)
    got, path = m.decode(X)
    check_path(w, "decode", got, path, sp, tm, fp)


def harnesses(tier):
    hs = []
    for nc, ns in [(2, 7), (4, 3), (5, 2), (3, 5)] + (
            [(2, 10), (4, 5), (9, 3)] if tier == "thorough" else []):
        hs.append(Harness(
            f"larger-{nc}x{ns}", larger, dict(nc=nc, ns=ns, free=2), cost=60,
            bound=f"n_components={nc}, n_samples={ns}, two arbitrary "
            "positive emission probabilities, everything else fixed"))
    sizes = [(1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2), (2, 4), (3, 1),
             (4, 2), (3, 3)]
    if tier == "thorough":
        sizes += [(2, 5), (5, 2), (2, 6), (3, 4)]
    for nc, ns in sizes:
        hs.append(Harness(
            f"kernel-{nc}x{ns}", kernel, dict(nc=nc, ns=ns),
            symrun=kernel_sym, inline=True, cost=10 * nc ** ns,
            limit=None if tier == "quick" else 1500,
            bound=f"kernel: n_components={nc}, n_samples={ns}, any "
            "log-weights including -inf"))
    for nc, ns in [(1, 2), (2, 1), (2, 2)] + (
            [(3, 1), (2, 3)] if tier == "thorough" else []):
        for how in ("decode", "arg", "predict"):
            hs.append(Harness(
                f"{how}-{nc}x{ns}", decoding,
                dict(nc=nc, ns=ns, how=how, pattern=("full", "zero")),
                cost=20, bound=f"decode/predict: n_components={nc}, "
                f"n_samples={ns}, any stochastic parameters, any positive "
                "emission probabilities"))
    return hs
