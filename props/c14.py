"""C14 fitted parameters are valid."""
import numpy as np
from symx import stubs
from symx.runner import Harness
from props import c13
from props.models import abstract_model, spd
from props.spec import summed
from props.c09 import weights

ASSUMPTIONS = [
    "real arithmetic: rounding is not modelled",
    "one training step from any valid starting point; validity of further "
    "steps follows, since each starts from a valid point",
    "the samples are possible and every state has a positive posterior at "
    "some sample; Dirichlet priors are at least one",
    "emission densities are arbitrary positive numbers where their form "
    "does not matter (it is C06's and C07's subject)",
]


def distribution(w, name, row):
    row = list(row)
    for x in row:
        w.true(f"{name} is non-negative", w.le(w.num(0), x))
    w.eq(f"{name} sums to one", summed(row), 1)


def usable(w, m, X, lengths):
    """the fitted model can be used."""
    try:
        m.score(X, lengths)
    except ValueError as e:
        if m.implementation == "log" or "underflow" not in str(e):
            raise
        return
    if not w.symbolic:
        m.predict(X, lengths)
        x, z = m.sample(3, random_state=1)
        w.true("samples", np.shape(x)[0] == 3 and np.shape(z) == (3,)
               and bool(np.all(np.isfinite(x))))


def chain(w, nc, lengths, impl, pattern, spattern, prior, frames, **_):
    n = sum(lengths)
    kw = {}
    if prior:
        kw = dict(startprob_prior=1 + w.nonneg("sp"),
                  transmat_prior=w.nonnegs("tp", nc, nc) + 1)
    m, sp, tm, fp, X = abstract_model(
        w, nc, n, "log" if impl == "log" else "both", tuple(pattern), frames,
        spattern=tuple(spattern), implementation=impl, n_iter=1, params="st",
        init_params="", **kw)
    sp0, tm0 = np.array(sp, dtype=object), np.array(tm, dtype=object)
    subs, i = [], 0
    for k in lengths:
        subs.append(range(i, i + k))
        i += k
    if frames != "pos":
        from props.spec import total
        for s in subs:
            w.assume(w.lt(w.num(0), total(
                w, sp, tm, w.asarray(np.asarray(fp)[list(s)]))))
    po, _ll = weights(w, sp0, tm0, fp, lengths)
    left = [summed([po[t][k] for s in subs for t in list(s)[:-1]] or
                   [w.num(0)]) for k in range(nc)]
    try:
        m.fit(X, list(lengths) if len(lengths) > 1 else None)
    except ValueError:
        if impl == "log":
            raise
        return
    distribution(w, "startprob_", m.startprob_)
    ok = True
    for k in range(nc):
        row = np.asarray(m.transmat_)[k]
        if bool(summed(row) == 0):
            ok = False
            w.true("a row is all zero only if the state is never left",
                   w.equal(left[k], w.num(0)))
            continue
        distribution(w, "transmat_", row)
        for a, b in zip(row, tm0[k]):
            if w.is0(b):
                w.true("no new transitions", w.equal(a, w.num(0)))
    if ok:
        usable(w, m, X, list(lengths) if len(lengths) > 1 else None)


def psd(w, name, c, strict=True):
    """c is symmetric and positive (semi-)definite."""
    c = np.asarray(c)
    n = len(c)
    for i in range(n):
        w.true(f"{name} has positive variances",
               (w.lt if strict else w.le)(w.num(0), c[i, i]))
        for j in range(i):
            w.eq(f"{name} is symmetric", c[i, j], c[j, i])
    if n == 2 and not w.is0(c[0, 1]):
        d = c[0, 0] * c[1, 1] - c[0, 1] * c[1, 0]
        w.true(f"{name} has a positive determinant",
               (w.lt if strict else w.le)(w.num(0), d))


def priors(w, cls, nc, nm, nf, ctype):
    kw = dict(startprob_prior=1 + w.nonneg("ps"),
              transmat_prior=1 + w.nonneg("pt"))
    if cls == "CategoricalHMM":
        kw["emissionprob_prior"] = 1 + w.nonneg("pe")
    if cls == "PoissonHMM":
        kw.update(lambdas_prior=w.nonneg("la"), lambdas_weight=w.nonneg("lb"))
    if cls == "GaussianHMM":
        kw.update(means_prior=w.real("mp"), means_weight=w.nonneg("mw"),
                  covars_weight=w.nonneg("cw") + (
                      nf if ctype in ("tied", "full") else 1))
        kw["covars_prior"] = spd(w, "cp", nf) if ctype in (
            "tied", "full") else w.pos("cp")
    if cls == "GMMHMM":
        kw.update(means_prior=w.real("mp"), means_weight=w.nonneg("mw"),
                  weights_prior=1 + w.nonneg("pw"))
        if ctype in ("diag", "spherical"):
            kw.update(covars_prior=w.pos("ca"), covars_weight=w.pos("cb"))
        else:
            shape = (nc,) if ctype == "tied" else (nc, nm)
            c = np.empty(shape + (nf, nf), dtype=object)
            c[...] = np.asarray(spd(w, "cp", nf))
            kw.update(covars_prior=w.asarray(c), covars_weight=w.pos("cw"))
    return kw


def line(w, cls, n, nf):
    """samples, by the first and the differences to it."""
    if cls not in c13.CONTINUOUS:
        return c13.samples(w, cls, n, nf)
    x = np.asarray(w.reals("x", n, nf)).copy()
    for t in range(1, n):
        for j in range(nf):
            x[t, j] = x[0, j] + x[t, j]
    return w.asarray(x)


def around(w, v, kw, n, nc, nm, nf):
    """samples and means, by the differences to the means' prior (or to the
    first mean): a bijection, but for a prior the origin is its mean."""
    o = [w.real(f"o{i}") for i in range(nf)]
    prior = "means_prior" in kw
    if prior and nf > 1:
        del kw["means_prior"], kw["means_weight"]
        prior = False
    if prior:
        o = [w.num(0)] * nf
        kw["means_prior"] = o[0]
    mu = np.asarray(v["means_"]).copy()
    for k in range(nc):
        for j in range(nm):
            for i in range(nf):
                mu[k, j, i] = o[i] + mu[k, j, i] if k or j or prior else o[i]
    v["means_"] = w.asarray(mu)
    x = np.asarray(w.reals("x", n, nf)).copy()
    for t in range(n):
        for i in range(nf):
            x[t, i] = o[i] + x[t, i]
    return w.asarray(x)


def fitted(w, cls, nc, nm, nf, n, ctype, impl, prior, lengths=None, **_):
    v = c13.start(w, cls, nc, nm, nf, ctype)
    kw = priors(w, cls, nc, nm, nf, ctype) if prior else {}
    if nc == 2 and impl == "scaling" and cls == "GMMHMM" and prior:
        # (the log domain has both priors)
        del kw["means_prior"], kw["means_weight"]
    if cls == "GMMHMM":
        X = around(w, v, kw, n, nc, nm, nf)
    else:
        X = line(w, cls, n, nf)
    n = len(X)
    X_ = np.asarray(X)
    frames = w.poss("b", n, nc)
    stubs.reset()
    letters = (c13.CONTINUOUS | c13.DISCRETE)[cls]
    if cls in c13.CONTINUOUS and not cls.startswith("V") and nc > 1:
        # the shape of the posteriors does not matter for the scatter
        v["startprob_"] = w.asarray(np.array([1. / nc] * nc))
        v["transmat_"] = w.asarray(np.full((nc, nc), 1. / nc))
    m = c13.make(w, cls, nc, nm, nf, ctype, frames, params=letters,
                 init_params="", implementation=impl, **kw)
    c13.assign(w, m, cls, v)
    full = ctype in ("tied", "full")
    # the samples spread enough
    if cls == "GMMHMM" and not prior or nf == 2 and not prior and full and \
            not cls.startswith("V"):
        spread(w, cls, X_, v, nc, nm, nf, ctype)
    try:
        m.fit(X, lengths)
    except ValueError:
        if impl == "log":
            raise
        return
    distribution(w, "startprob_", m.startprob_)
    for r in np.asarray(m.transmat_):
        distribution(w, "transmat_", r)
    if "e" in letters:
        for r in np.asarray(m.emissionprob_):
            distribution(w, "emissionprob_", r)
    if "l" in letters:
        for x in np.asarray(m.lambdas_).ravel():
            w.true("rates are non-negative", w.le(w.num(0), x))
    if "w" in letters:
        for r in np.asarray(m.weights_):
            distribution(w, "weights_", r)
    if "c" in letters:
        cv = np.asarray(m.covars_)
        strict = True
        if cls == "GMMHMM":
            want = {"tied": (nc, nf, nf), "full": (nc, nm, nf, nf),
                    "diag": (nc, nm, nf), "spherical": (nc, nm)}[ctype]
            w.true("covars_ has its shape", cv.shape == want)
            if ctype in ("diag", "spherical"):
                for x in cv.ravel():
                    w.true("covars_ are positive", w.lt(w.num(0), x))
            else:
                for c in cv.reshape(-1, nf, nf):
                    psd(w, "covars_", c, strict)
        else:
            w.true("covars_ has its shape", cv.shape == (nc, nf, nf))
            for c in cv:
                psd(w, "covars_", c, strict)
    if cls.startswith("V"):
        for name in ("startprob_posterior_", "transmat_posterior_",
                     "emissionprob_posterior_", "beta_posterior_",
                     "dof_posterior_"):
            if hasattr(m, name):
                for x in np.ravel(np.asarray(getattr(m, name))):
                    w.true(f"{name} is positive", w.lt(w.num(0), x))
    if not cls.startswith("V") or not w.symbolic:
        # (the densities of the variational models are real ones here)
        usable(w, m, X, lengths)


def spread(w, cls, X, v, nc, nm, nf, ctype):
    """the scatter without a prior is definite."""
    if cls == "GaussianHMM":
        w.assume(w.not_(w.equal(X[1, 0] - X[0, 0], X[1, 1] - X[0, 1])))
        return
    # around the means of the E-step: no sample is at a mean
    mu = np.asarray(v["means_"]).reshape(-1, nf)
    for k in mu:
        if nf == 1 or ctype in ("diag", "spherical"):
            for j in range(nf):
                w.assume(w.not_(w.equal(X[0, j], k[j])))
        else:
            d = (X[0, 0] - k[0]) * (X[1, 1] - k[1]) - (
                X[0, 1] - k[1]) * (X[1, 0] - k[0])
            w.assume(w.lt(w.num(0), d * d))


def harnesses(tier):
    hs = []
    q = tier == "quick"
    for impl in ("log", "scaling"):
        for nc, ls in ((2, (2,)), (2, (1, 2)), (2, (3,)), (2, (1, 1))) if q \
                else ((2, (2,)), (2, (1, 2)), (2, (3,)), (2, (1, 1)),
                      (2, (4,)), (3, (2,)), (3, (3,)), (2, (2, 2))):
            for prior in (False, True):
                for frames in ("pos", "nonneg"):
                    if frames == "nonneg" and sum(ls) > 2:
                        continue
                    hs.append(Harness(
                        f"chain-{nc}-{'+'.join(map(str, ls))}-{frames}-"
                        f"{impl}" + "-prior" * prior, chain,
                        dict(nc=nc, lengths=ls, impl=impl, prior=prior,
                             pattern=("full", "zero", "one", "ident"),
                             spattern=("full", "zero"),
                             frames=frames),
                        cost=nc ** sum(ls),
                        bound=f"{nc} states, sequences of {ls} samples, zero "
                        "patterns of start and transitions, " +
                        ("any priors >= 1" if prior else "no priors")))
        for cls in ("CategoricalHMM", "MultinomialHMM", "PoissonHMM",
                    "VariationalCategoricalHMM"):
            for prior in (False, True):
                if prior and cls[0] in "VM":
                    continue
                for nc, nf, n in ((2, 2, 2), (2, 2, 3)) if q else (
                        (2, 2, 2), (2, 2, 3), (3, 2, 2)):
                    hs.append(Harness(
                        f"fit-{cls}-{nc}-{nf}-{n}-{impl}" + "-prior" * prior,
                        fitted, dict(cls=cls, nc=nc, nm=1, nf=nf, n=n,
                                     ctype="", impl=impl, prior=prior),
                        overrides=stubs.CLUSTER, cost=30,
                        bound=f"{cls}: {nc} states, {nf} symbols or "
                        f"features, {n} samples"))
        for cls in c13.CONTINUOUS:
            for ct in ("spherical", "diag", "tied", "full"):
                for prior in (False, True):
                    if prior and cls[0] == "V":
                        continue
                    cf = [(2, 1, 1, 2), (1, 1, 2, 2)]
                    if cls == "GMMHMM":
                        cf = [(1, 2, 1, 2), (2, 1, 1, 2), (1, 1, 2, 2)]
                    if not q:
                        cf += [(2, 1, 1, 3), (2, 1, 2, 2), (1, 2, 2, 2)
                               if cls == "GMMHMM" else (3, 1, 1, 2)]
                    for nc, nm, nf, n in cf:
                        if cls[0] == "V" and ct == "tied" and \
                                impl == "scaling" and nc > 1:
                            # undecided: the log domain decides it
                            continue
                        hs.append(Harness(
                            f"fit-{cls}-{ct}-{nc}-{nm}-{nf}-{n}-{impl}"
                            + "-prior" * prior, fitted,
                            dict(cls=cls, nc=nc, nm=nm, nf=nf, n=n, ctype=ct,
                                 impl=impl, prior=prior),
                            overrides=stubs.CLUSTER, cost=40,
                            bound=f"{cls} {ct}: {nc} states, {nm} "
                            f"components, {nf} features, {n} samples"))
    return hs
