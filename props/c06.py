"""C06 Gaussian and mixture densities."""
import numpy as np
from symx.runner import Harness
from props.spec import summed
from props.models import (TINY, covariances, gaussian, log_mvn, set_chain)

ASSUMPTIONS = [
    "real arithmetic: rounding is not modelled",
    "variances exceed the smallest normal double (smaller ones are floored)",
    "cholesky, solve_triangular and logsumexp follow their definition",
]
TYPES = ("spherical", "diag", "tied", "full")


def density(w, nc, nf, ns, ctype):
    """the public density function."""
    f = w.mod("stats").log_multivariate_normal_density
    X = w.reals("x", ns, nf)
    mu = w.reals("m", nc, nf)
    cv, full = covariances(w, ctype, nc, nf)
    if ctype in ("spherical", "diag"):
        for x in np.ravel(cv):
            w.assume(w.lt(w.num(TINY), x))
    got = f(X, mu, cv, ctype)
    w.eq("density", got, [[log_mvn(w, X[t], mu[k], full[k])
                           for k in range(nc)] for t in range(ns)])
    if ctype == "spherical":
        got = f(X, mu, w.asarray(np.asarray(cv).reshape(-1, 1)), ctype)
        w.eq("density with a column of variances", got,
             [[log_mvn(w, X[t], mu[k], full[k])
               for k in range(nc)] for t in range(ns)])


def floor(w, nf):
    """variances below the smallest normal double are floored to it."""
    f = w.mod("stats").log_multivariate_normal_density
    X = w.asarray(np.zeros((1, nf)))
    mu = w.asarray(np.zeros((1, nf)))
    got = f(X, mu, w.asarray(np.zeros((1, nf))), "diag")
    w.eq("zero variance", got, f(X, mu, w.asarray(
        np.full((1, nf), np.finfo(float).tiny)), "diag"))


def model(w, nc, nf, ctype, impl):
    """score of one sample."""
    m, sp, tm, mu, full = gaussian(w, nc, nf, ctype, implementation=impl)
    X = w.reals("x", 1, nf)
    dens = [log_mvn(w, X[0], mu[k], full[k]) for k in range(nc)]
    ref = w.log(summed(sp[k] * w.exp(dens[k]) for k in range(nc)))
    try:
        got = m.score(X)
    except ValueError:
        if impl == "log":
            raise
        return
    w.eq("score", got, ref)


def mixture(w, nc, nm, nf, ctype, impl):
    m = w.mod("hmm").GMMHMM(n_components=nc, n_mix=nm, covariance_type=ctype,
                            implementation=impl)
    sp, tm = set_chain(w, m, nc)
    m.weights_ = wt = w.stochastic("w", nc, nm)
    m.means_ = mu = w.reals("m", nc, nm, nf)
    if ctype == "tied":
        cv, fl = covariances(w, "full", nc, nf)
        full = [[fl[k]] * nm for k in range(nc)]
        m.covars_ = cv
    else:
        cv, fl = covariances(w, ctype, nc * nm, nf)
        full = [[fl[k * nm + j] for j in range(nm)] for k in range(nc)]
        m.covars_ = w.asarray(np.asarray(cv).reshape(
            (nc, nm) + np.shape(cv)[1:]))
        if ctype in ("spherical", "diag"):
            for x in np.ravel(cv):
                w.assume(w.lt(w.num(TINY), x))
    X = w.reals("x", 1, nf)
    dens = [summed(wt[k][j] * w.exp(log_mvn(w, X[0], mu[k][j], full[k][j]))
                   for j in range(nm)) for k in range(nc)]
    try:
        got = m.score(X)
    except ValueError:
        if impl == "log":
            raise
        return
    w.eq("score", got, w.log(summed(sp[k] * dens[k] for k in range(nc))))


def harnesses(tier):
    hs = []
    q = tier == "quick"
    for ct in TYPES:
        for nf in (1, 2, 3) if q else (1, 2, 3, 4):
            if nf > 2 and ct in ("full",) and q or nf == 4 and ct == "tied":
                nc, ns = 1, 1
            else:
                nc, ns = 2, 2
            hs.append(Harness(
                f"density-{ct}-{nf}", density,
                dict(nc=nc, nf=nf, ns=ns, ctype=ct), cost=nf ** 3,
                bound=f"{ct}: n_features={nf}, n_components={nc}, "
                f"n_samples={ns}"))
        for impl in ("log", "scaling"):
            for nf in (1, 2):
                for nc in (1, 2):
                    hs.append(Harness(
                        f"model-{ct}-{nc}-{nf}-{impl}", model,
                        dict(nc=nc, nf=nf, ctype=ct, impl=impl),
                        cost=nf ** 3,
                        bound=f"GaussianHMM {ct}: n_components={nc}, "
                        f"n_features={nf}, one sample"))
            for nc, nm, nf in ([(1, 2, 1), (2, 2, 1), (1, 2, 2), (1, 1, 2)]
                               if q else
                               [(1, 2, 1), (2, 2, 1), (1, 3, 1), (1, 2, 2),
                                (1, 1, 2), (2, 2, 2), (2, 1, 2)]):
                hs.append(Harness(
                    f"mixture-{ct}-{nc}-{nm}-{nf}-{impl}", mixture,
                    dict(nc=nc, nm=nm, nf=nf, ctype=ct, impl=impl),
                    cost=nf ** 3 + nm,
                    bound=f"GMMHMM {ct}: n_components={nc}, n_mix={nm}, "
                    f"n_features={nf}, one sample"))
    hs.append(Harness("floor", floor, dict(nf=2), bound="zero variance"))
    return hs
