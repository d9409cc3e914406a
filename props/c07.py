"""C07 discrete emission probabilities."""
import math
import numpy as np
from symx.runner import Harness
from props.spec import summed, total, posterior
from props.models import set_chain

ASSUMPTIONS = ["real arithmetic: rounding is not modelled",
               "scipy's multinomial and poisson follow their definition"]


def categorical(w, nc, nf, n, impl, zeros, layout="column"):
    m = w.mod("hmm").CategoricalHMM(n_components=nc, implementation=impl)
    sp, tm = set_chain(w, m, nc)
    e = w.stochastic("e", nc, nf, support=None if zeros else
                     [list(range(nf))] * nc)
    m.emissionprob_ = e
    x = [w.choose(nf) for _ in range(n)]
    X = np.array(x, dtype=np.int64)
    X = X[:, None] if layout == "column" else X[None, :] \
        if layout == "row" else X.reshape(-1, 2)
    fp = w.asarray([[e[k][s] for k in range(nc)] for s in x])
    chk(w, m, X, sp, tm, fp, impl)


def chk(w, m, X, sp, tm, fp, impl):
    tot = total(w, sp, tm, fp)
    try:
        lp, po = m.score_samples(X)
    except ValueError:
        if impl == "log":
            raise
        return
    w.eq("log-likelihood", lp, w.log(tot))
    if bool(w.lt(w.num(0), tot) if w.symbolic else tot > 0):
        w.eq("posteriors", po, posterior(w, sp, tm, fp))


def reject_negative(w, op):
    m = w.mod("hmm").CategoricalHMM(n_components=2)
    set_chain(w, m, 2)
    m.emissionprob_ = w.stochastic("e", 2, 3, support=[list(range(3))] * 2)
    X = np.array([[[0], [-1], [1]], [[-1], [0], [0]], [[0], [2], [-3]],
                  [[0], [1], [3]]][w.choose(4)])
    w.raises(f"{op} of a symbol outside the alphabet",
             (ValueError, IndexError), getattr(m, op), X)


COUNTS = {1: [[0], [1], [3]],
          2: [[0, 0], [1, 0], [0, 2], [1, 1], [2, 1]],
          3: [[0, 0, 0], [1, 0, 1], [2, 1, 1], [0, 3, 0], [1, 1, 0]]}


def multinomial_pmf(w, x, p):
    c = math.factorial(sum(x))
    for k in x:
        c //= math.factorial(k)
    r = w.num(c)
    for k, q in zip(x, p):
        for _ in range(k):
            r = r * q
    return r


def multinomial(w, nc, nf, n, impl, zeros, trials):
    x = [w.pick(COUNTS[nf]) for _ in range(n)]
    tot = [sum(r) for r in x]
    if trials == "array":
        nt = np.array(tot)
    else:
        nt = tot[0]     # whatever is stored, the sample's own total counts
    m = w.mod("hmm").MultinomialHMM(n_components=nc, n_trials=nt,
                                    implementation=impl)
    sp, tm = set_chain(w, m, nc)
    e = w.stochastic("e", nc, nf, support=None if zeros else
                     [list(range(nf))] * nc)
    m.emissionprob_ = e
    fp = w.asarray([[multinomial_pmf(w, r, e[k]) for k in range(nc)]
                    for r in x])
    chk(w, m, np.array(x), sp, tm, fp, impl)


def poisson(w, nc, nf, n, impl):
    m = w.mod("hmm").PoissonHMM(n_components=nc, implementation=impl)
    sp, tm = set_chain(w, m, nc)
    lam = w.poss("l", nc, nf)
    m.lambdas_ = lam
    x = [w.pick(COUNTS[nf]) for _ in range(n)]

    def pmf(r, ls):
        v = w.exp(-summed(ls))
        for k, la in zip(r, ls):
            for _ in range(k):
                v = v * la
            v = v / w.num(math.factorial(k))
        return v
    fp = w.asarray([[pmf(r, lam[k]) for k in range(nc)] for r in x])
    chk(w, m, np.array(x), sp, tm, fp, impl)


def harnesses(tier):
    hs = []
    q = tier == "quick"
    for impl in ("log", "scaling"):
        for nc, nf, n, z in ([(1, 3, 2, True), (2, 2, 1, True),
                              (2, 2, 2, False), (2, 3, 1, False)] +
                             ([] if q else [(2, 2, 2, True), (2, 3, 2, False),
                                            (3, 3, 1, False)])):
            hs.append(Harness(
                f"categorical-{nc}-{nf}-{n}-{'z' if z else 'p'}-{impl}",
                categorical, dict(nc=nc, nf=nf, n=n, impl=impl, zeros=z),
                cost=nf ** n, bound=f"CategoricalHMM n_components={nc}, "
                f"n_features={nf}, n_samples={n}"))
            if nf > 1 and (not z or nc == 1):
                for tr in ("scalar", "array"):
                    hs.append(Harness(
                        f"multinomial-{nc}-{nf}-{n}-{tr}-{impl}",
                        multinomial,
                        dict(nc=nc, nf=nf, n=n, impl=impl, zeros=z,
                             trials=tr), cost=3 * nf ** n,
                        bound=f"MultinomialHMM n_components={nc}, "
                        f"n_features={nf}, n_samples={n}, counts up to 3"))
        for lay, n in (("row", 3), ("square", 4)):
            hs.append(Harness(
                f"categorical-layout-{lay}-{impl}", categorical,
                dict(nc=1, nf=2, n=n, impl=impl, zeros=False, layout=lay),
                cost=10, bound="CategoricalHMM, deprecated layouts of the "
                "samples"))
        for nc, nf, n in ([(1, 1, 2), (2, 1, 1), (2, 2, 1), (2, 1, 2)] if q
                          else [(1, 1, 2), (2, 1, 1), (2, 2, 1), (2, 1, 2),
                                (2, 2, 2), (1, 3, 2)]):
            hs.append(Harness(
                f"poisson-{nc}-{nf}-{n}-{impl}", poisson,
                dict(nc=nc, nf=nf, n=n, impl=impl), cost=3 * nf ** n,
                bound=f"PoissonHMM n_components={nc}, n_features={nf}, "
                f"n_samples={n}, counts up to 3"))
    for op in ("score", "decode", "predict_proba", "score_samples"):
        hs.append(Harness(f"reject-{op}", reject_negative, dict(op=op),
                          bound="symbols outside 0..n_features-1"))
    return hs
