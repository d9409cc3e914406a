"""C04 MAP decoding."""
import numpy as np
from symx.runner import Harness
from props.spec import posterior
from props.models import abstract_model, chain, large_model

ASSUMPTIONS = ["real arithmetic: rounding is not modelled",
               "log_prob of MAP decoding is the sum of the chosen states' "
               "posterior probabilities (the behaviour of the code; the "
               "documentation calls it a log probability)"]


def mapdec(w, nc, ns, impl, how, pattern):
    m, sp, tm, fp, X = abstract_model(w, nc, ns, pattern=pattern,
                                      implementation=impl, algorithm="map"
                                      if how == "model" else "viterbi")
    follow(w, m, posterior(w, sp, tm, fp), X, how, impl)


def larger(w, nc, ns, impl, free):
    m, sp, tm, fp, X = large_model(w, nc, ns, free=free, implementation=impl)
    f, b, tot = chain(w, sp, tm, fp)
    follow(w, m, [[f[t][i] * b[t][i] / tot for i in range(nc)]
                  for t in range(ns)], X, "arg", impl)


def follow(w, m, exp, X, how, impl):
    ns, nc = len(exp), len(exp[0])
    try:
        if how == "model":
            lp, path = m.decode(X)
        else:
            lp, path = m.decode(X, algorithm="map")
    except ValueError:
        if impl == "log":
            raise
        return
    path = [int(x) for x in path]
    w.true("length", len(path) == ns)
    s = w.num(0)
    for t in range(ns):
        w.true(f"valid state {t}", 0 <= path[t] < nc)
        for i in range(nc):
            if i != path[t]:
                w.true(f"posterior of the chosen state at {t} is maximal",
                       w.le(exp[t][i], exp[t][path[t]]))
        s = s + exp[t][path[t]]
    w.eq("log_prob", lp, s)


def harnesses(tier):
    hs = []
    for impl, nc, ns in [("log", 2, 6), ("scaling", 2, 8), ("scaling", 5, 4)] \
            + ([("scaling", 2, 20), ("log", 5, 4), ("scaling", 9, 3)]
               if tier == "thorough" else []):
        hs.append(Harness(
            f"larger-{impl}-{nc}x{ns}", larger,
            dict(nc=nc, ns=ns, free=2, impl=impl), cost=60,
            bound=f"n_components={nc}, n_samples={ns}, two arbitrary "
            "positive emission probabilities, everything else fixed"))
    sizes = [(1, 2), (2, 1), (2, 2), (3, 1)]
    if tier == "thorough":
        sizes += [(2, 3), (3, 2)]
    for nc, ns in sizes:
        for impl in ("log", "scaling"):
            for how in ("model", "arg"):
                hs.append(Harness(
                    f"{how}-{impl}-{nc}x{ns}", mapdec,
                    dict(nc=nc, ns=ns, impl=impl, how=how,
                         pattern=("full", "zero")), cost=nc ** ns,
                    bound=f"n_components={nc}, n_samples={ns}, any "
                    "stochastic parameters (full or structural zeros), any "
                    "positive emission probabilities"))
    return hs
