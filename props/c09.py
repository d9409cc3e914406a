"""C09 discrete emission re-estimation."""
import math
import numpy as np
from symx.runner import Harness
from props.spec import posterior, summed, total
from props.models import larger, set_chain
from props.c07 import multinomial_pmf

ASSUMPTIONS = ["real arithmetic: rounding is not modelled",
               "scipy's multinomial and poisson follow their definition"]


def split(xs, lengths):
    out, i = [], 0
    for n in lengths:
        out.append(xs[i:i + n])
        i += n
    return out


def weights(w, sp, tm, fp, lengths):
    """posteriors of all samples, and the log-likelihood."""
    subs = split(fp, lengths)
    po = [r for f in subs for r in posterior(w, sp, tm, f)]
    return po, summed(w.log(total(w, sp, tm, f)) for f in subs)


def run(w, m, X, lengths, impl):
    try:
        m.fit(X, None if len(lengths) == 1 else list(lengths))
    except ValueError:
        if impl == "log":
            raise
        return False
    return True


def prior(w, kind, name, *shape):
    if kind == "one":
        return 1., np.ones(shape)
    if kind == "scalar":
        p = w.num(1) + w.pos(name)
        return p, w.arr(shape, lambda *ix: p)
    if kind == "array":
        p = w.poss(name, *shape) + 1
        return p, p
    p = w.pos(name, hi=1, sampler=lambda r, s: r.uniform(.01, .99))
    return p, w.arr(shape, lambda *ix: p)


def categorical(w, nc, nf, xs, lengths, impl, pr, params="e"):
    arg, pp = prior(w, pr, "pe", nc, nf)
    m = w.mod("hmm").CategoricalHMM(
        n_components=nc, n_features=nf, implementation=impl, n_iter=1,
        params=params, init_params="", emissionprob_prior=arg)
    sp, tm = set_chain(w, m, nc)
    m.emissionprob_ = e = w.stochastic("e", nc, nf,
                                       support=[list(range(nf))] * nc)
    x = [w.choose(nf) for _ in range(sum(lengths))] if xs is None else xs
    fp = w.asarray([[e[k][s] for k in range(nc)] for s in x])
    po, ll = weights(w, sp, tm, fp, lengths)
    if not run(w, m, np.array(x)[:, None], lengths, impl):
        return
    for k in range(nc):
        row = []
        for s in range(nf):
            c = pp[k][s] - 1 + summed(
                [w.num(0)] + [po[t][k] for t in range(len(x)) if x[t] == s])
            if pr == "below":
                if not w.symbolic:
                    w.generic(abs(c) > 1e-7)
                c = w.maximum(c, 0)
            row.append(c)
        tot = summed(row)
        if pr == "below":
            w.assume(w.lt(w.num(0), tot) if w.symbolic else tot > 0)
        w.eq(f"emissionprob_[{k}]", m.emissionprob_[k],
             [c / tot for c in row])
    w.eq("objective", m.monitor_.history[0], ll)


def multinomial(w, nc, nf, xs, lengths, impl, params="e"):
    m = w.mod("hmm").MultinomialHMM(
        n_components=nc, implementation=impl, n_iter=1, params=params,
        n_trials=np.array([sum(x) for x in xs]), init_params="")
    sp, tm = set_chain(w, m, nc)
    m.emissionprob_ = e = w.stochastic("e", nc, nf,
                                       support=[list(range(nf))] * nc)
    fp = w.asarray([[multinomial_pmf(w, r, e[k]) for k in range(nc)]
                    for r in xs])
    po, ll = weights(w, sp, tm, fp, lengths)
    if not run(w, m, np.array(xs), lengths, impl):
        return
    for k in range(nc):
        row = [summed(po[t][k] * xs[t][s] for t in range(len(xs)))
               for s in range(nf)]
        w.eq(f"emissionprob_[{k}]", m.emissionprob_[k],
             [c / summed(row) for c in row])
    w.eq("objective", m.monitor_.history[0], ll)


def poisson(w, nc, nf, xs, lengths, impl, pr, params="l"):
    if pr == "none":
        a, b = w.num(0), w.num(0)
        args = {}
        A = B = np.zeros((nc, nf))
    elif pr == "scalar":
        a, b = w.pos("al"), w.pos("be")
        args = dict(lambdas_prior=a, lambdas_weight=b)
        A, B = (w.arr((nc, nf), lambda *ix: a),
                w.arr((nc, nf), lambda *ix: b))
    else:
        A, B = w.poss("al", nc, nf), w.poss("be", nc, nf)
        args = dict(lambdas_prior=A, lambdas_weight=B)
    m = w.mod("hmm").PoissonHMM(
        n_components=nc, implementation=impl, n_iter=1, params=params,
        init_params="", **args)
    sp, tm = set_chain(w, m, nc)
    m.lambdas_ = lam = w.poss("l", nc, nf)

    def pmf(r, ls):
        v = w.exp(-summed(ls))
        for k, la in zip(r, ls):
            for _ in range(k):
                v = v * la
            v = v / w.num(math.factorial(k))
        return v
    fp = w.asarray([[pmf(r, lam[k]) for k in range(nc)] for r in xs])
    po, ll = weights(w, sp, tm, fp, lengths)
    if not run(w, m, np.array(xs), lengths, impl):
        return
    w.eq("lambdas_", m.lambdas_,
         [[(A[k][j] + summed(po[t][k] * xs[t][j] for t in range(len(xs))))
           / (B[k][j] + summed(po[t][k] for t in range(len(xs))))
           for j in range(nf)] for k in range(nc)])
    w.eq("objective", m.monitor_.history[0], ll)


def harnesses(tier):
    hs = []
    q = tier == "quick"
    for impl in ("log", "scaling"):
        cats = [(2, 2, None, (2,), "one"), (2, 3, None, (2,), "array"),
                (2, 2, None, (1, 1), "scalar"), (2, 3, [1], (1,), "array"),
                (2, 2, [0, 1, 0], (3,), "array"),
                (2, 3, [2, 0, 0], (2, 1), "one"),
                (2, 2, [0, 1], (1, 1), "below"), (3, 2, [1, 0], (2,), "one")]
        if not q:
            cats += [(2, 2, None, (3,), "array"), (2, 3, None, (2, 1), "one"),
                     (3, 3, [2, 0], (2,), "array"),
                     (2, 2, [0, 1], (2,), "below"),
                     (2, 2, [0, 1, 1, 0], (2, 2), "scalar")]
        for nc, nf, xs, ls, pr in cats:
            for ps in ("e", "ste"):
                if ps == "ste" and pr != "array":
                    continue
                hs.append(Harness(
                    f"categorical-{nc}-{nf}-{'any' if xs is None else ''.join(map(str, xs))}"
                    f"-{'+'.join(map(str, ls))}-{pr}-{ps}-{impl}", categorical,
                    dict(nc=nc, nf=nf, xs=xs, lengths=ls, impl=impl, pr=pr,
                         params=ps), cost=10 * nc ** sum(ls),
                    bound=f"CategoricalHMM n_components={nc}, "
                    f"n_features={nf}, sequences of {ls} samples"))
        muls = [(2, 2, [[1, 1]], (1,)), (2, 2, [[2, 1], [0, 1]], (2,)),
                (2, 3, [[1, 0, 2], [1, 1, 1]], (1, 1)),
                (3, 2, [[1, 1]], (1,))]
        if not q:
            muls += [(2, 2, [[2, 1], [0, 3], [1, 2]], (3,)),
                     (2, 3, [[1, 0, 2], [1, 1, 1], [0, 1, 0]], (2, 1))]
        for nc, nf, xs, ls in muls:
            for ps in ("e", "ste"):
                hs.append(Harness(
                    f"multinomial-{nc}-{nf}-{len(xs)}-{'+'.join(map(str, ls))}"
                    f"-{ps}-{impl}", multinomial,
                    dict(nc=nc, nf=nf, xs=xs, lengths=ls, impl=impl,
                         params=ps), cost=10 * nc ** len(xs),
                    bound=f"MultinomialHMM n_components={nc}, "
                    f"n_features={nf}, sequences of {ls} samples, counts "
                    "up to 3"))
        poi = [(2, 1, [[2]], (1,), "scalar"), (2, 1, [[2], [0]], (2,), "array"),
               (2, 2, [[1, 2], [3, 0]], (1, 1), "none"),
               (1, 2, [[1, 2], [3, 0], [0, 1]], (2, 1), "array"),
               (2, 2, [[1, 0]], (1,), "array"),
               (3, 1, [[2], [1]], (2,), "none")]
        if not q:
            poi += [(2, 1, [[2], [0], [1]], (3,), "array"),
                    (2, 2, [[1, 2], [3, 0]], (2,), "array"),
                    (2, 1, [[2], [0], [1]], (2, 1), "scalar")]
        for nc, nf, xs, ls, pr in poi:
            for ps in ("l", "stl"):
                hs.append(Harness(
                    f"poisson-{nc}-{nf}-{len(xs)}-{'+'.join(map(str, ls))}"
                    f"-{pr}-{ps}-{impl}", poisson,
                    dict(nc=nc, nf=nf, xs=xs, lengths=ls, impl=impl, pr=pr,
                         params=ps), cost=10 * nc ** len(xs),
                    bound=f"PoissonHMM n_components={nc}, n_features={nf}, "
                    f"sequences of {ls} samples, counts up to 3"))
        for nc, nf, ls, pr in [(5, 4, (3, 2), "array"),
                               (2, 6, (4, 1, 5), "array"),
                               (2, 2, (12,), "scalar")] + (
                [] if q else [(8, 3, (3, 3), "array"), (3, 9, (8, 1, 9),
                                                        "scalar"),
                              (2, 3, (20,), "array")]):
            n, sc = sum(ls), impl == "scaling"
            if q and not sc and nf == 6:
                continue
            if not sc and n > 5:        # (as many samples, low degrees)
                ls = (2, 1) * (n // 3) + (1,) * (n % 3)
            larger(hs, f"categorical-{nc}-{nf}-{n}-{pr}-{impl}", categorical,
                   "e1_.|pe|pe1_1|pe0_0" + "|p0|a0_.|e0_." * sc,
                   f"CategoricalHMM n_components={nc}, n_features={nf}, "
                   f"sequences of {ls} samples",
                   params=dict(nc=nc, nf=nf, lengths=ls, impl=impl, pr=pr,
                               xs=[(t * t + t // 2) % nf for t in range(n)]))
            if q and not sc and nc == 2:
                continue
            larger(hs, f"multinomial-{nc}-{nf}-{n}-{impl}", multinomial,
                   "e1_." + "|p0|a0_." * sc, f"MultinomialHMM n_components={nc}, "
                   f"n_features={nf}, sequences of {ls} samples, counts up "
                   "to 4",
                   params=dict(nc=nc, nf=nf, lengths=ls, impl=impl, xs=[
                       [(t * t + 3 * j + t // 2) % 5 for j in range(nf)]
                       for t in range(n)]))
            if not sc and nc > 2:
                continue
            larger(hs, f"poisson-{nc}-{nf}-{n}-{impl}", poisson,
                   "al1_1|be1_1|al|be|l1_0" + "|p0|l0_1" * sc,
                   f"PoissonHMM n_components={nc}, "
                   f"n_features={nf}, sequences of {ls} samples, counts up "
                   "to 4",
                   params=dict(nc=nc, nf=nf, lengths=ls, impl=impl, pr=pr, xs=[
                       [(t * t + 3 * j + t // 2) % 5 for j in range(nf)]
                       for t in range(n)]))
        if impl == "log":
            larger(hs, "poisson-4-3-3-log", poisson, "al1_1|be1_1|l1_0",
                   "PoissonHMM n_components=4, n_features=3, sequences of "
                   "(1, 2) samples, counts up to 4",
                   params=dict(nc=4, nf=3, lengths=(1, 2), impl=impl,
                               pr="array", xs=[[2, 0, 4], [1, 1, 0],
                                               [0, 3, 1]]))
    return hs
