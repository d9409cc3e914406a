"""C11 Gaussian mixture re-estimation."""
import numpy as np
from symx import stubs
from symx.runner import Harness
from props.spec import summed
from props.models import TINY, abstracted, covariances, larger, log_mvn, \
    set_chain
from props.c09 import run, weights

ASSUMPTIONS = [
    "real arithmetic: rounding is not modelled",
    "state posteriors are arbitrary (arbitrary frame probabilities); the "
    "mixture responsibilities come from the real densities",
    "with several states and transitions the start and transition "
    "probabilities are fixed rationals",
    "clustering is replaced by an arbitrary result: nothing is initialised "
    "from it here",
]


def priors(w, pr, nc, nm, nf, ctype):
    """(weights prior - 1, mean weight, mean prior, covariance shape and
    weight as functions of the indices, constructor arguments)."""
    kw = {}

    def const(x):
        return lambda *ix: x
    al = lam = mp = const(w.num(0))
    ca = cb = None
    if pr == "default":
        return al, lam, mp, ca, cb, kw
    if pr == "array":            # one value per index
        a, la = w.poss("al", nc, nm), w.poss("la", nc, nm)
        mean = w.reals("mp", nc, nm, nf)
        shape = {"full": (nc, nm), "tied": (nc,), "diag": (nc, nm, nf),
                 "spherical": (nc, nm)}[ctype]
        b = w.poss("cb", *shape)
        if ctype in ("diag", "spherical"):
            c = w.poss("ca", *shape)
        else:
            c = np.empty(shape + (nf, nf), dtype=object)
            for ix in np.ndindex(*shape):
                for i in range(nf):
                    for j in range(i, nf):
                        c[ix + (i, j)] = c[ix + (j, i)] = w.real(
                            f"ca{'_'.join(map(str, ix))}:{i}{j}") if i < j \
                            else w.pos(f"ca{'_'.join(map(str, ix))}:{i}")
            c = w.asarray(c)
        kw = dict(weights_prior=a + 1, means_weight=la, means_prior=mean,
                  covars_prior=c, covars_weight=b)
        return (lambda *i: a[i], lambda *i: la[i], lambda *i: mean[i],
                lambda *i: c[i], lambda *i: b[i], kw)
    if pr == "sparse":           # a mean prior with a zero coordinate
        la, x = w.pos("la"), w.real("mp")
        mean = w.asarray([x if i == nf - 1 else w.num(0)
                          for i in range(nf)])
        return (al, const(la), lambda k, j, i: mean[i], None, None,
                dict(means_prior=mean, means_weight=la))
    a, la, x = w.pos("al"), w.pos("la"), w.real("mp")
    al, lam, mp = const(a), const(la), const(x)
    kw.update(weights_prior=a + 1, means_prior=x, means_weight=la)
    if pr == "full":
        c, b = w.pos("ca"), w.pos("cb")
        ca, cb = const(c), const(b)
        kw.update(covars_prior=c, covars_weight=b)
    return al, lam, mp, ca, cb, kw


def step(w, nc, nm, nf, lengths, ctype, impl, params, pr, zero=False):
    stubs.reset()
    n = sum(lengths)
    fp = w.poss("b", n, nc)
    al, lam, mp, ca, cb, kw = priors(w, pr, nc, nm, nf, ctype)
    m = abstracted(w, w.mod("hmm").GMMHMM, fp)(
        n_components=nc, n_mix=nm, covariance_type=ctype, n_iter=1,
        implementation=impl, params=params, init_params="",
        random_state=w.random("r") if w.symbolic else 0, **kw)
    sp, tm = set_chain(w, m, nc, fixed=nc > 1 and len(lengths) < n)
    wt = w.stochastic("w", nc, nm, support=[
        list(range(1 if zero else 0, nm))] * nc)
    m.weights_ = wt
    mu = w.reals("m", nc, nm, nf)
    m.means_ = mu
    if ctype == "tied":
        cv, fl = covariances(w, "full", nc, nf)
        full = [[fl[k]] * nm for k in range(nc)]
    else:
        cv, fl = covariances(w, ctype, nc * nm, nf)
        full = [[fl[k * nm + j] for j in range(nm)] for k in range(nc)]
        if ctype in ("spherical", "diag"):
            for x in np.ravel(cv):
                w.assume(w.lt(w.num(TINY), x))
        cv = w.asarray(np.asarray(cv).reshape((nc, nm) + np.shape(cv)[1:]))
    m.covars_ = cv
    m.n_features = nf
    X = w.reals("x", n, nf)
    po, ll = weights(w, sp, tm, fp, lengths)
    # responsibilities
    g = [[[None] * nm for _ in range(nc)] for _ in range(n)]
    for t in range(n):
        for k in range(nc):
            d = [log_mvn(w, X[t], mu[k][j], full[k][j]) for j in range(nm)]
            s = w.num(0) if w.symbolic else max(
                x for j, x in enumerate(d) if wt[k][j] > 0)
            d = [wt[k][j] * w.exp(d[j] - s) for j in range(nm)]
            for j in range(nm):
                g[t][k][j] = po[t][k] * (d[j] / summed(d))
    N = [[summed(g[t][k][j] for t in range(n)) for j in range(nm)]
         for k in range(nc)]
    M = [summed(po[t][k] for t in range(n)) for k in range(nc)]
    if w.keep:
        for k, j, i in np.ndindex(nc, nm, nf):
            y = lam(k, j) * mp(k, j, i) + summed(
                g[t][k][j] * X[t][i] for t in range(n))
            w.assume(w.not_(w.equal(y, w.num(0))) if w.symbolic else y != 0)
    if not run(w, m, X, lengths, impl):
        return
    new_w = wt
    if "w" in params:
        new_w = [[(N[k][j] + al(k, j)) / (M[k] + summed(
            al(k, i) for i in range(nm))) for j in range(nm)]
            for k in range(nc)]
    w.eq("weights_", m.weights_, new_w)
    new_mu = mu
    live = [[not w.is0(wt[k][j]) or pr != "default" for j in range(nm)]
            for k in range(nc)]
    if "m" in params:
        new_mu = [[[(lam(k, j) * mp(k, j, i) + summed(
            g[t][k][j] * X[t][i] for t in range(n))) / (lam(k, j) + N[k][j])
                    if live[k][j] else w.num(0) for i in range(nf)]
                   for j in range(nm)] for k in range(nc)]
    w.eq("means_", m.means_, new_mu)
    if "c" not in params:
        w.eq("covars_", m.covars_, cv)
        return
    new_mu = m.means_

    def scatter(k, j, a, b):
        """around the means of the E-step, plus the prior on the means."""
        return lam(k, j) * (new_mu[k][j][a] - mp(k, j, a)) * (
            new_mu[k][j][b] - mp(k, j, b)) + \
            summed(g[t][k][j] * (X[t][a] - mu[k][j][a])
                   * (X[t][b] - mu[k][j][b]) for t in range(n))
    R = range(nf)
    for k in range(nc):
        if ctype == "tied":
            d = M[k] if cb is None else M[k] + nm + cb(k) + nf + 1
            w.eq(f"covars_[{k}]", m.covars_[k],
                 [[((ca(k, a, b) if ca else 0) + summed(scatter(k, j, a, b) for j in range(nm))) / d
                   for b in R] for a in R])
            continue
        for j in range(nm):
            if not live[k][j]:
                continue
            nm_ = f"covars_[{k},{j}]"
            got = m.covars_[k][j]
            if ctype == "full":
                d = N[k][j] if cb is None else N[k][j] + 1 + cb(k, j) + nf + 1
                w.eq(nm_, got, [[((ca(k, j, a, b) if ca else 0)
                                  + scatter(k, j, a, b)) / d for b in R]
                                for a in R])
            elif ctype == "diag":
                w.eq(nm_, got, [
                    (scatter(k, j, a, a) + (2 * cb(k, j, a) if cb else 0)) / (
                        N[k][j] + 1 + 2 * (ca(k, j, a) + 1) if ca
                        else N[k][j]) for a in R])
            else:
                d = N[k][j] * nf if ca is None else \
                    (N[k][j] + 1) * nf + 2 * (ca(k, j) + 1)
                w.eq(nm_, got, (summed(scatter(k, j, a, a) for a in R) + (
                    2 * cb(k, j) if cb else 0)) / d)


def harnesses(tier):
    hs = []
    q = tier == "quick"
    cfg = [(1, 2, 1, (2,), "full", "mcw"), (2, 2, 1, (1, 1), "full", "stmcw"),
           (1, 2, 2, (2,), "default", "mcw"), (2, 1, 1, (2,), "means", "mcw"),
           (1, 2, 2, (2,), "full", "c"), (1, 2, 1, (2,), "means", "m"),
           (1, 2, 1, (2,), "means", "w"), (1, 2, 1, (1, 2), "default", "mcw"),
           (1, 1, 1, (2, 1), "default", "cw"),
           (2, 2, 1, (1, 1), "array", "mcw"), (1, 2, 2, (2,), "array", "mcw")]
    if not q:
        cfg += [(2, 1, 2, (2,), "means", "mcw"), (2, 2, 1, (2,), "full", "stmcw"),
                (1, 3, 1, (2,), "full", "mcw"),
                (1, 2, 2, (3,), "means", "mcw"), (2, 2, 1, (2, 1), "default",
                                                  "mcw"),
                (2, 2, 2, (1, 1), "full", "mcw"), (1, 2, 2, (2,), "full", "mc"),
                (1, 2, 1, (2,), "full", "mw"), (1, 2, 1, (2,), "full", "cw")]
    for ct in ("spherical", "diag", "tied", "full"):
        for impl in ("log", "scaling"):
            for nc, nm, nf, ls, pr, ps in cfg:
                if q and (ct, impl, nf, pr) == ("full", "scaling", 2,
                                                "default"):
                    continue
                hs.append(Harness(
                    f"step-{ct}-{nc}-{nm}-{nf}-{'+'.join(map(str, ls))}-{pr}"
                    f"-{ps}-{impl}", step,
                    dict(nc=nc, nm=nm, nf=nf, lengths=ls, ctype=ct,
                         impl=impl, params=ps, pr=pr),
                    cost=(nc * nm) ** sum(ls) * nf ** 3,
                    overrides=stubs.CLUSTER,
                    bound=f"{ct}: n_components={nc}, n_mix={nm}, n_features="
                    f"{nf}, sequences of {ls} samples, priors {pr}"))
        for impl, nc, nm, nf, ls, pr in [
                ("log", 3, 3, 2, (1, 2), "array"),
                ("scaling", 2, 4, 3, (2, 1), "full"),
                ("scaling", 1, 2, 2, (7,), "means"),
                ("log", 4, 1, 3, (2, 1, 1), "default")] + ([] if q else [
                    ("log", 2, 5, 2, (2, 2, 1), "array"),
                    ("scaling", 5, 2, 4, (2, 1), "array"),
                    ("scaling", 2, 3, 2, (12,), "full")]):
            larger(hs, f"{ct}-{nc}-{nm}-{nf}-{sum(ls)}-{pr}-{impl}", step,
                   "b0_1|x1_0|m0_0_0|w0_.|mp|mp0_1_0|la|la0_1|al|al0_0|ca|cb|cb0_1|"
                   "cb0|cb0_0_1|ca0_1|ca0_0_1",
                   f"{ct}: n_components={nc}, n_mix={nm}, n_features={nf}, "
                   f"sequences of {ls} samples, priors {pr}, no mean "
                   "exactly zero",
                   overrides=stubs.CLUSTER,
                   params=dict(nc=nc, nm=nm, nf=nf, lengths=ls, ctype=ct,
                               impl=impl, params="stmcw", pr=pr))
        hs.append(Harness(
            f"sparse-{ct}", step, dict(
                nc=1, nm=2, nf=2, lengths=(2,), ctype=ct, impl="log",
                params="mw", pr="sparse", zero=True), cost=20,
            overrides=stubs.CLUSTER,
            bound=f"{ct}: a component of weight zero, a mean prior with a "
            "zero coordinate"))
        hs.append(Harness(
            f"zero-{ct}", step, dict(
                nc=1, nm=2, nf=1, lengths=(2,), ctype=ct, impl="log",
                params="mcw" if ct == "tied" else "mw", pr="default",
                zero=True), cost=20, overrides=stubs.CLUSTER,
            bound=f"{ct}: a component of weight zero"))
    return hs
