"""C17 information criteria."""
import numpy as np
from symx.runner import Harness

ASSUMPTIONS = [
    "the score is an arbitrary real (score() replaced in a subclass; C01 "
    "decides it); real arithmetic",
    "number of samples: each of the listed values",
]
COV = {
    "spherical": lambda nc, nf: nc,
    "diag": lambda nc, nf: nc * nf,
    "full": lambda nc, nf: nc * nf * (nf + 1) / 2,
    "tied": lambda nc, nf: nf * (nf + 1) / 2,
}


def free(cls, ct, nc, nf, nm):
    """dimension of the parameter space."""
    k = nc - 1 + nc * (nc - 1)
    if cls == "CategoricalHMM" or cls == "MultinomialHMM":
        return k + nc * (nf - 1)
    if cls == "PoissonHMM":
        return k + nc * nf
    if cls == "GaussianHMM":
        return k + nc * nf + COV[ct](nc, nf)
    c = {"spherical": nc * nm, "diag": nc * nm * nf,
         "full": nc * nm * nf * (nf + 1) / 2,
         "tied": nc * nf * (nf + 1) / 2}[ct]
    return k + nc * (nm - 1) + nc * nm * nf + c


def check(w, cls, ct, nc, nf, nm, ns, lengths=False):
    B = getattr(w.mod("hmm"), cls)
    s = w.real("s")
    seen = []

    class M(B):
        def score(self, X, lengths=None):
            seen.append((X, lengths))
            return s

        @classmethod
        def _get_param_names(c):
            return B._get_param_names()
    kw = {}
    if ct:
        kw["covariance_type"] = ct
    if cls == "GMMHMM":
        kw["n_mix"] = nm
    m = M(n_components=nc, **kw)
    m.n_features = nf
    X = np.zeros((ns, 1))
    ln = None
    if lengths:
        ln = w.pick(([1] * ns, [ns - 1, 1], [1, ns - 2, 1], [ns],
                     np.array([1, ns - 1])))
    k = free(cls, ct, nc, nf, nm)
    a = m.aic(X, ln)
    w.eq("aic", a, -2 * s + 2 * k)
    b = m.bic(X, lengths=ln)
    w.eq("bic", b, -2 * s + k * w.log(w.num(ns)))
    w.true("all data are scored", len(seen) == 2 and all(
        np.array_equal(x, X) and (y is ln or ln is not None and y is not None
                                  and np.array_equal(y, ln))
        for x, y in seen))


def sizes(w, cls, ct, ns, lengths=False):
    check(w, cls, ct, w.posint("nc"), w.posint("nf"), w.posint("nm"), ns,
          lengths)


def fixed(w, cls, ct, nc, nf, nm, ns):
    check(w, cls, ct, nc, nf, nm, ns)


def real_score(w, cls, ct, nc, nf, nm):
    """on a complete model, with its own score."""
    C = getattr(w.mod("hmm"), cls)
    kw = {"covariance_type": ct} if ct else {}
    if cls == "GMMHMM":
        kw["n_mix"] = nm
    if cls == "MultinomialHMM":
        kw["n_trials"] = 2
    m = C(n_components=nc, **kw)
    m.startprob_ = w.simplex("p", nc, list(range(nc)))
    m.transmat_ = w.stochastic("a", nc, support=[list(range(nc))] * nc)
    if cls in ("CategoricalHMM", "MultinomialHMM"):
        m.emissionprob_ = w.stochastic("e", nc, nf,
                                       support=[list(range(nf))] * nc)
        X = np.array([[0], [nf - 1]]) if cls == "CategoricalHMM" else \
            np.array([[2] + [0] * (nf - 1), [1] + [0] * (nf - 2) + [1]])
    elif cls == "PoissonHMM":
        m.lambdas_ = w.poss("l", nc, nf)
        X = np.arange(2 * nf).reshape(2, nf)
    elif cls == "GaussianHMM":
        m.means_ = w.reals("m", nc, nf)
        m.covars_ = {
            "spherical": np.ones(nc), "diag": np.ones((nc, nf)),
            "full": np.array([np.eye(nf)] * nc), "tied": np.eye(nf)}[ct]
        X = w.reals("x", 2, nf)
    else:
        m.weights_ = w.stochastic("w", nc, nm, support=[list(range(nm))] * nc)
        m.means_ = w.reals("m", nc, nm, nf)
        m.covars_ = {
            "spherical": np.ones((nc, nm)), "diag": np.ones((nc, nm, nf)),
            "full": np.array([[np.eye(nf)] * nm] * nc),
            "tied": np.array([np.eye(nf)] * nc)}[ct]
        X = w.reals("x", 2, nf)
    k = free(cls, ct, nc, nf, nm)
    a = m.aic(X)            # before anything else has looked at the model
    s = m.score(X)
    w.eq("aic", a, -2 * s + 2 * k)
    w.eq("bic", m.bic(X), -2 * s + k * w.log(w.num(2)))
    s2 = m.score(X, [1, 1])
    w.eq("aic", m.aic(X, [1, 1]), -2 * s2 + 2 * k)
    w.eq("bic", m.bic(X, [1, 1]), -2 * s2 + k * w.log(w.num(2)))


CT = ("spherical", "diag", "tied", "full")


def harnesses(tier):
    hs = []
    q = tier == "quick"
    kinds = [("CategoricalHMM", None), ("MultinomialHMM", None),
             ("PoissonHMM", None)] + [(c, t) for c in (
                 "GaussianHMM", "GMMHMM") for t in CT]
    for cls, ct in kinds:
        for ns in (1, 2, 5) if q else range(1, 13):
            hs.append(Harness(
                f"sizes-{cls}-{ct}-{ns}", sizes,
                dict(cls=cls, ct=ct, ns=ns, lengths=ns >= 5),
                bound=f"{cls} {ct}: every number of states, features, "
                f"mixtures >= 1; {ns} samples"))
        for nc, nf, nm in [(1, 1, 1), (2, 3, 2), (3, 2, 4)]:
            hs.append(Harness(
                f"fixed-{cls}-{ct}-{nc}-{nf}-{nm}", fixed,
                dict(cls=cls, ct=ct, nc=nc, nf=nf, nm=nm, ns=7),
                bound=f"{cls} {ct}: n_components={nc}, n_features={nf}, "
                f"n_mix={nm}, 7 samples"))
        for nc, nf, nm in [(2, 2, 2)] if q else [(2, 2, 2), (1, 3, 2),
                                                 (2, 1, 3)]:
            if nf == 1 and cls == "MultinomialHMM":
                continue
            hs.append(Harness(
                f"model-{cls}-{ct}-{nc}-{nf}-{nm}", real_score,
                dict(cls=cls, ct=ct, nc=nc, nf=nf, nm=nm), cost=3,
                bound=f"{cls} {ct}: n_components={nc}, n_features={nf}, "
                f"n_mix={nm}, 2 samples, every parameter value"))
    return hs
