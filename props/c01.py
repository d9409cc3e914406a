"""C01 exact likelihood."""
from symx.runner import Harness
from props.spec import joint, paths, summed, total
from props.models import abstract_model, chain, large_model

ASSUMPTIONS = [
    "real arithmetic: rounding of the double operations is not modelled "
    "(C23 covers extreme ranges)",
]


def kernel(w, nc, ns, impl):
    sp = w.nonnegs("p", nc)
    tm = w.nonnegs("a", nc, nc)
    if impl == "log":
        fp = w.nonnegs("b", ns, nc)
        got, fwd = w.k.forward_log(sp, tm, w.log(fp))
    else:
        fp = w.nonnegs("b", ns, nc)
        try:
            got, fwd, sc = w.k.forward_scaling(sp, tm, fp)
        except ValueError:
            # may only be raised when a one-step predictive probability is
            # below the documented underflow threshold
            pre = [w.num(1)] + [total(w, sp, tm, fp[:t + 1])
                                for t in range(ns)]
            w.true("underflow error is justified", w.or_(
                *[w.lt(pre[t + 1], 1e-299 * pre[t]) if w.symbolic else
                  bool(pre[t + 1] <= 1e-299 * pre[t]) for t in range(ns)]))
            return
    w.eq("log-likelihood", got, w.log(total(w, sp, tm, fp)))


def scoring(w, nc, ns, kind, impl, pattern, spattern):
    m, sp, tm, fp, X = abstract_model(w, nc, ns, kind, pattern=pattern,
                                      spattern=spattern,
                                      implementation=impl)
    tot = w.log(total(w, sp, tm, fp))
    try:
        got = m.score(X)
    except ValueError:
        if impl == "log":
            raise
        return
    w.eq("score", got, tot)
    w.eq("score_samples log_prob", m.score_samples(X)[0], tot)


def larger(w, nc, ns, kind, impl):
    m, sp, tm, fp, X = large_model(w, nc, ns, kind=kind, implementation=impl)
    tot = w.log(chain(w, sp, tm, fp)[2])
    try:
        got = m.score(X)
    except ValueError:
        if impl == "log":
            raise
        return
    w.eq("score", got, tot)
    w.eq("score_samples log_prob", m.score_samples(X)[0], tot)


def harnesses(tier):
    hs = []
    for impl, nc, ns in [("log", 2, 20), ("scaling", 2, 40), ("log", 5, 4),
                         ("log", 3, 9), ("scaling", 6, 4)] + (
            [("log", 2, 70), ("scaling", 3, 70), ("scaling", 2, 140),
             ("log", 9, 4), ("scaling", 12, 5)] if tier == "thorough"
            else []):
        hs.append(Harness(
            f"larger-{impl}-{nc}x{ns}", larger,
            dict(nc=nc, ns=ns, kind="log" if nc == 2 else "lin", impl=impl),
            cost=50,
            bound=f"n_components={nc}, n_samples={ns}, three arbitrary "
            "positive emission probabilities, everything else fixed"))
    sizes = [(1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2)]
    if tier == "thorough":
        sizes += [(2, 4), (2, 5), (3, 3), (4, 2), (3, 4), (4, 3)]
    for nc, ns in sizes:
        for impl in ("log", "scaling"):
            hs.append(Harness(
                f"kernel-{impl}-{nc}x{ns}", kernel,
                dict(nc=nc, ns=ns, impl=impl), cost=nc ** ns,
                bound=f"kernel: n_components={nc}, n_samples={ns}, any "
                "non-negative start/transition/emission weights"))
    sizes = [(2, 2), (2, 3), (3, 2)]
    if tier == "thorough":
        sizes += [(1, 1), (2, 4), (3, 3)]
    for nc, ns in sizes:
        for kind in ("lin", "log"):
            for impl in ("log", "scaling"):
                hs.append(Harness(
                    f"score-{kind}-{impl}-{nc}x{ns}", scoring,
                    dict(nc=nc, ns=ns, kind=kind, impl=impl,
                         pattern=("full", "zero"),
                         spattern=("full", "zero")), cost=nc ** ns,
                    bound=f"score/score_samples: n_components={nc}, "
                    f"n_samples={ns}, any stochastic parameters (full or "
                    "with structural zeros), any positive emission "
                    "probabilities"))
    return hs
