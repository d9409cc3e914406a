"""C02 exact posteriors."""
import numpy as np
from symx.runner import Harness
from props.spec import posterior, total
from props.models import abstract_model, chain, large_model

ASSUMPTIONS = ["real arithmetic: rounding is not modelled",
               "the observations have positive probability"]


def post(w, nc, ns, kind, impl, pattern, spattern, frames="pos"):
    m, sp, tm, fp, X = abstract_model(w, nc, ns, kind, pattern=pattern,
                                      spattern=spattern, frames=frames,
                                      implementation=impl)
    if frames != "pos":
        w.assume(w.lt(w.num(0), total(w, sp, tm, fp)))
    exp = posterior(w, sp, tm, fp)
    try:
        lp, got = m.score_samples(X)
    except ValueError:
        if impl == "log":
            raise
        return                       # documented underflow error
    w.eq("posteriors", got, exp)
    w.eq("rows sum to one", got.sum(axis=1), [1] * ns)
    w.eq("log_prob", lp, w.log(total(w, sp, tm, fp)))
    w.eq("predict_proba", m.predict_proba(X), exp)


def larger(w, nc, ns, kind, impl):
    m, sp, tm, fp, X = large_model(w, nc, ns, kind=kind, implementation=impl)
    f, b, tot = chain(w, sp, tm, fp)
    try:
        lp, got = m.score_samples(X)
    except ValueError:
        if impl == "log":
            raise
        return
    w.eq("posteriors", got, w.asarray(np.array(
        [[f[t][i] * b[t][i] / tot for i in range(nc)] for t in range(ns)],
        dtype=object)))
    w.eq("log_prob", lp, w.log(tot))


def harnesses(tier):
    hs = []
    for impl, nc, ns in [("log", 2, 12), ("scaling", 2, 40), ("log", 5, 4),
                         ("log", 3, 7), ("scaling", 6, 5)] + (
            [("log", 2, 40), ("log", 2, 70), ("scaling", 3, 70),
             ("scaling", 2, 140), ("log", 9, 4), ("log", 12, 3),
             ("scaling", 12, 5)] if tier == "thorough" else []):
        hs.append(Harness(
            f"larger-{impl}-{nc}x{ns}", larger,
            dict(nc=nc, ns=ns, kind="log" if nc == 2 else "lin", impl=impl),
            cost=50,
            bound=f"n_components={nc}, n_samples={ns}, three arbitrary "
            "positive emission probabilities, everything else fixed"))
    sizes = [(1, 2), (2, 1), (2, 2), (2, 3), (3, 2)]
    if tier == "thorough":
        sizes += [(1, 3), (2, 4), (3, 3)]
    for nc, ns in sizes:
        for kind in ("lin", "log"):
            for impl in ("log", "scaling"):
                hs.append(Harness(
                    f"{kind}-{impl}-{nc}x{ns}", post,
                    dict(nc=nc, ns=ns, kind=kind, impl=impl,
                         pattern=("full", "zero"), spattern=("full", "zero")),
                    cost=nc ** ns,
                    bound=f"n_components={nc}, n_samples={ns}, any "
                    "stochastic parameters (full or with structural zeros), "
                    "any positive emission probabilities"))
    for nc, ns in [(2, 2)] + ([(2, 3), (3, 2)] if tier == "thorough" else []):
        for impl in ("log", "scaling"):
            hs.append(Harness(
                f"zeros-{impl}-{nc}x{ns}", post,
                dict(nc=nc, ns=ns, kind="lin", impl=impl, pattern=("full",),
                     spattern=("full",), frames="nonneg"), cost=20,
                bound=f"n_components={nc}, n_samples={ns}, emission "
                "probabilities possibly zero"))
    return hs
