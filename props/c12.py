"""C12 training never lowers the objective."""
import math
import numpy as np
from symx import stubs
from symx.runner import Harness
from props.c09 import weights
from props.c18 import expected, split, subnorm
from props.c19 import dirichlet
from props.models import TINY, abstracted, adj, covariances, det, log_mvn
from props.spec import pairwise, summed

ASSUMPTIONS = [
    "real arithmetic: rounding is not modelled",
    "three inequalities of analysis are used as lemmas and not decided: "
    "Jensen's (log of a mean >= mean of the logs), log u >= 1 - 1/u (for "
    "matrices: log det A >= n - tr A^-1) and that Dirichlet divergences are "
    "not negative; with them the statement follows from the obligations, "
    "which say that the code's update does not lower the expected "
    "complete-data log-likelihood for any old parameters",
    "emission densities of the continuous models are arbitrary positive "
    "numbers in the E-step, so that the posteriors are arbitrary; mixture "
    "responsibilities come from the real densities",
    "priors are flat: the defaults, and for GaussianHMM covars_prior=0",
    "replays on the real build follow the objective over several iterations",
]


def discrete(w, tag, N, old, new):
    """sum N log(new/old) >= sum N (1 - old/new) >= 0."""
    s = w.num(0)
    for n, o, x in zip(N, old, new):
        if w.is0(n):
            continue
        s = s + n * (1 - o / x)
    if w.symbolic:
        # (the bound's gain is the mass of what was not seen)
        w.eq(f"{tag}: gain", s, summed(list(N)) * summed(
            [w.num(0)] + [o for n, o in zip(N, old) if w.is0(n)]))
    else:
        w.true(f"{tag} does not lower the objective", float(s) >= -1e-6)


def chain_blocks(w, m, sp, tm, fp, lengths, po):
    subs = split(list(range(len(fp))), lengths)
    nc = len(sp)
    start = [summed(po[s[0]][k] for s in subs) for k in range(nc)]
    discrete(w, "startprob_", start, sp, m.startprob_)
    subs = [s for s in subs if len(s) > 1]
    if not subs:
        return
    xi = summed([np.asarray(pairwise(w, sp, tm, w.asarray(
        np.asarray(fp)[s]))) for s in subs])
    for i in range(nc):
        discrete(w, f"transmat_[{i}]", xi[i], tm[i],
                 np.asarray(m.transmat_)[i])


def objective(w, m, ll):
    """the monitored value is the log-likelihood (points at which the
    oracle's plain sum of products underflows tell nothing)."""
    if not w.symbolic and abs(float(m.monitor_.history[0])) > 300:
        return False
    w.eq("objective", m.monitor_.history[0], ll)
    return True


def climbs(w, m, X, lengths=None):
    """the objective over the iterations, on the real build."""
    try:
        m.fit(X, lengths)
    except ValueError:
        pass
    h = [float(x) for x in m.monitor_.history]
    for a, b in zip(h, h[1:]):
        if abs(a) > 1e4 or abs(b) > 1e4 or not np.isfinite(b):
            return                      # (a density has collapsed)
        w.true("the objective is not lowered",
               b >= a - 1e-6 * (1 + abs(a)))


def more(X, n, draw):
    """deterministic further samples."""
    r = np.random.RandomState(abs(hash(tuple(
        np.round(np.ravel(X), 6)))) % 2**31)
    return np.array([draw(r) for _ in range(n)])


def simplexes(r, *shape):
    return r.dirichlet(np.ones(shape[-1]), shape[:-1] or None)


def chain0(w, nc, pattern=("full",)):
    sp = w.simplex("p", nc, list(range(nc)))
    tm = w.stochastic("a", nc, support=w.pattern(nc, kinds=pattern))
    return sp, tm


def structure(w, nc, lengths, impl, pattern, **_):
    """start and transitions, any emissions."""
    n = sum(lengths)
    sp, tm = chain0(w, nc, pattern)
    fp = w.poss("b", n, nc)
    from props.models import abstract_class
    m = abstract_class(w, kind="log")(
        n_components=nc, implementation=impl, n_iter=1, params="st",
        init_params="")
    m.frames = fp
    m.startprob_, m.transmat_ = sp, tm
    ls = None if len(lengths) == 1 else list(lengths)
    po, ll = weights(w, sp, tm, fp, lengths)
    X = np.arange(n)[:, None]
    try:
        m.fit(X, ls)
    except ValueError:
        if impl == "log":
            raise
        return
    if not objective(w, m, ll):
        return
    chain_blocks(w, m, sp, tm, fp, lengths, po)
    if not w.symbolic:
        m.startprob_, m.transmat_ = sp, tm
        m.n_iter, m.tol = 8, -np.inf
        climbs(w, m, X, ls)
        m.frames = more(fp, 12, lambda r: r.gamma(.5, size=nc) + 1e-9)
        m.startprob_, m.transmat_ = sp, tm
        climbs(w, m, np.arange(12)[:, None], [5, 1, 6])


def categorical(w, nc, nf, xs, lengths, impl, **_):
    sp, tm = chain0(w, nc)
    e = w.stochastic("e", nc, nf, support=[list(range(nf))] * nc)

    def make(**kw):
        m = w.mod("hmm").CategoricalHMM(
            n_components=nc, n_features=nf, implementation=impl,
            init_params="", **kw)
        m.startprob_, m.transmat_, m.emissionprob_ = sp, tm, e
        return m
    m = make(n_iter=1)
    fp = w.asarray([[e[k][s] for k in range(nc)] for s in xs])
    po, ll = weights(w, sp, tm, fp, lengths)
    ls = None if len(lengths) == 1 else list(lengths)
    X = np.array(xs)[:, None]
    try:
        m.fit(X, ls)
    except ValueError:
        if impl == "log":
            raise
        return
    if not objective(w, m, ll):
        return
    chain_blocks(w, m, sp, tm, fp, lengths, po)
    for k in range(nc):
        N = [summed([w.num(0)] + [po[t][k] for t in range(len(xs))
                                  if xs[t] == s]) for s in range(nf)]
        discrete(w, f"emissionprob_[{k}]", N, e[k], m.emissionprob_[k])
    if not w.symbolic:
        climbs(w, make(n_iter=8, tol=-np.inf), X, ls)
        climbs(w, make(n_iter=8, tol=-np.inf), more(
            e, 14, lambda r: [r.randint(nf)]), [6, 1, 7])


def multinomial(w, nc, nf, xs, lengths, impl, **_):
    from props.c07 import multinomial_pmf
    sp, tm = chain0(w, nc)
    e = w.stochastic("e", nc, nf, support=[list(range(nf))] * nc)

    def make(xs, **kw):
        m = w.mod("hmm").MultinomialHMM(
            n_components=nc, implementation=impl, init_params="",
            n_trials=np.array([sum(x) for x in xs]), **kw)
        m.startprob_, m.transmat_, m.emissionprob_ = sp, tm, e
        return m
    m = make(xs, n_iter=1)
    fp = w.asarray([[multinomial_pmf(w, r, e[k]) for k in range(nc)]
                    for r in xs])
    po, ll = weights(w, sp, tm, fp, lengths)
    ls = None if len(lengths) == 1 else list(lengths)
    try:
        m.fit(np.array(xs), ls)
    except ValueError:
        if impl == "log":
            raise
        return
    if not objective(w, m, ll):
        return
    chain_blocks(w, m, sp, tm, fp, lengths, po)
    for k in range(nc):
        N = [summed(po[t][k] * xs[t][s] for t in range(len(xs)))
             for s in range(nf)]
        discrete(w, f"emissionprob_[{k}]", N, e[k], m.emissionprob_[k])
    if not w.symbolic:
        Y = more(e, 12, lambda r: r.randint(1, 4, size=nf))
        climbs(w, make(Y.tolist(), n_iter=8, tol=-np.inf), Y, [5, 1, 6])


def poisson(w, nc, nf, xs, lengths, impl, **_):

    def poisson_pmf(w, r, ls):
        v = w.exp(-summed(ls))
        for k, la in zip(r, ls):
            v = v * la ** k / w.num(math.factorial(k))
        return v
    sp, tm = chain0(w, nc)
    lam = w.poss("l", nc, nf)

    def make(**kw):
        m = w.mod("hmm").PoissonHMM(
            n_components=nc, implementation=impl, init_params="", **kw)
        m.startprob_, m.transmat_, m.lambdas_ = sp, tm, lam
        return m
    m = make(n_iter=1)
    fp = w.asarray([[poisson_pmf(w, r, lam[k]) for k in range(nc)]
                    for r in xs])
    po, ll = weights(w, sp, tm, fp, lengths)
    ls = None if len(lengths) == 1 else list(lengths)
    try:
        m.fit(np.array(xs), ls)
    except ValueError:
        if impl == "log":
            raise
        return
    if not objective(w, m, ll):
        return
    chain_blocks(w, m, sp, tm, fp, lengths, po)
    T = range(len(xs))
    for k in range(nc):
        for j in range(nf):
            # sum g (x log(l'/l) - l' + l), log(l'/l) >= 1 - l/l'
            N = summed(po[t][k] for t in T)
            S = summed(po[t][k] * xs[t][j] for t in T)
            new = m.lambdas_[k][j]
            gain = N * (lam[k][j] - new)
            if any(x[j] for x in xs):
                gain = gain + S * (1 - lam[k][j] / new)
            # nought, or more if nothing was counted (the rate is nought)
            if any(x[j] for x in xs) and w.symbolic:
                w.eq(f"lambdas_[{k},{j}]: gain", gain, w.num(0))
            else:
                w.true(f"lambdas_[{k},{j}] does not lower the objective",
                       w.le(w.num(0), gain))
    if not w.symbolic:
        climbs(w, make(n_iter=8, tol=-np.inf), more(
            lam, 12, lambda r: r.poisson(2 + r.randint(4), size=nf)),
            [5, 1, 6])


def quad(a, y, d):
    """y' A^-1 y."""
    n = len(y)
    return summed(y[i] * a[i][j] * y[j] for i in range(n)
                  for j in range(n)) / d


def trace(a, s, d):
    n = len(s)
    return summed(a[i][j] * s[j][i] for i in range(n) for j in range(n)) / d


def normal_block(w, tag, g, X, mu, cov, mu2, cov2, groups):
    """the expected log densities: states (components) of a group share one
    covariance.  log(|S|/|S'|) >= n - tr(S^-1 S')."""
    T = range(len(X))
    for grp in groups:
        s = w.num(0)
        for k in grp:
            R = range(len(mu[k]))
            D, A = det(cov[k]), adj(cov[k])
            D2, A2 = det(cov2[k]), adj(cov2[k])
            N = summed(g[t][k] for t in T)
            s = s + N * (len(R) - trace(A, cov2[k], D))
            for t in T:
                y = [X[t][i] - mu[k][i] for i in R]
                z = [X[t][i] - mu2[k][i] for i in R]
                s = s + g[t][k] * (quad(A, y, D) - quad(A2, z, D2))
        yield grp, s


def full(c, ctype, nc, nf, w):
    """per-state matrices of a covars_ value as read back."""
    return [[[c[k][i][j] for j in range(nf)] for i in range(nf)]
            for k in range(nc)]


def gaussian(w, nc, nf, lengths, ctype, impl, params, **_):
    n = sum(lengths)
    fp = w.poss("b", n, nc)
    mu = w.reals("m", nc, nf)
    cv, cov = covariances(w, ctype, nc, nf)
    if ctype in ("spherical", "diag"):
        for x in np.ravel(cv):
            w.assume(w.lt(w.num(TINY), x))
    sp = tm = None
    if "t" in params:
        sp, tm = chain0(w, nc)
    else:
        sp = w.asarray([1. / nc] * nc)
        tm = w.asarray(np.full((nc, nc), 1. / nc))

    def make(frames, **kw):
        C = w.mod("hmm").GaussianHMM
        if frames is not None:
            C = abstracted(w, C, frames)
        m = C(n_components=nc, covariance_type=ctype, params=params,
              init_params="", implementation=impl, covars_prior=0, **kw)
        m.startprob_, m.transmat_, m.means_ = sp, tm, mu
        m.n_features = nf
        m.covars_ = cv
        return m
    X = w.reals("x", n, nf)
    po, ll = weights(w, sp, tm, fp, lengths)
    N = [summed(po[t][k] for t in range(n)) for k in range(nc)]
    if ctype in ("spherical", "diag"):
        for k in range(nc):                # (the denominator's floor)
            w.assume(w.le(w.num(1e-5), N[k]))
    m = make(fp, n_iter=1)
    ls = None if len(lengths) == 1 else list(lengths)
    if w.symbolic:
        if "c" in params:
            # the scatter is definite: the samples differ
            for j in range(nf):
                w.assume(w.not_(w.equal(X[0][j], X[1][j])))
            if nf == 2:
                if ctype in ("full", "tied"):
                    w.assume(w.not_(w.equal(
                        (X[0][0] - X[2][0]) * (X[1][1] - X[2][1]),
                        (X[0][1] - X[2][1]) * (X[1][0] - X[2][0]))))
    try:
        m.fit(X, ls)
    except ValueError:
        if impl == "log" and w.symbolic:
            raise
        return
    if not objective(w, m, ll):
        return
    if "t" in params:
        chain_blocks(w, m, sp, tm, fp, lengths, po)
    mu2 = m.means_
    cov2 = full(m.covars_, ctype, nc, nf, w)
    groups = [list(range(nc))] if ctype == "tied" else [[k] for k in
                                                        range(nc)]
    for grp, s in normal_block(w, "", po, X, mu, cov, mu2, cov2, groups):
        cert = summed(N[k] * quad(adj(cov[k]), [
            mu[k][i] - mu2[k][i] for i in range(nf)], det(cov[k]))
            for k in grp)
        tag = f"means_ and covars_ {grp}"
        if w.symbolic:
            w.eq(tag + ": gain", s, cert)
        else:
            w.true(tag + " do not lower the objective",
                   float(s) >= -1e-5 * (1 + abs(float(cert))))
    if not w.symbolic:
        climbs(w, make(None, n_iter=6, tol=-np.inf), more(
            X, 16, lambda r: r.normal(size=nf) + 3 * r.randint(2)),
            [7, 1, 8])


def mixture(w, nc, nm, nf, lengths, ctype, impl, params, **_):
    stubs.reset()
    n = sum(lengths)
    fp = w.poss("b", n, nc)
    wt = w.stochastic("w", nc, nm, support=[list(range(nm))] * nc)
    mu = w.reals("m", nc, nm, nf)
    if ctype == "tied":
        cv, fl = covariances(w, "full", nc, nf)
        cov = [[fl[k]] * nm for k in range(nc)]
    else:
        cv, fl = covariances(w, ctype, nc * nm, nf)
        cov = [[fl[k * nm + j] for j in range(nm)] for k in range(nc)]
        if ctype in ("spherical", "diag"):
            for x in np.ravel(cv):
                w.assume(w.lt(w.num(TINY), x))
        cv = w.asarray(np.asarray(cv).reshape((nc, nm) + np.shape(cv)[1:]))
    sp = w.asarray([1. / nc] * nc)
    tm = w.asarray(np.full((nc, nc), 1. / nc))

    def make(frames, **kw):
        C = w.mod("hmm").GMMHMM
        if frames is not None:
            C = abstracted(w, C, frames)
        m = C(n_components=nc, n_mix=nm, covariance_type=ctype,
              implementation=impl, params=params, init_params="",
              random_state=w.random("r") if w.symbolic else 0, **kw)
        m.startprob_, m.transmat_, m.weights_, m.means_ = sp, tm, wt, mu
        m.covars_ = cv
        m.n_features = nf
        return m
    X = w.reals("x", n, nf)
    if "c" in params:
        # the scatter around the old means is definite
        for k in range(nc):
            for j in range(nm):
                if nf == 2 and ctype in ("full", "tied"):
                    w.assume(w.not_(w.equal(
                        (X[0][0] - mu[k][j][0]) * (X[1][1] - mu[k][j][1]),
                        (X[0][1] - mu[k][j][1]) * (X[1][0] - mu[k][j][0]))))
                else:
                    for i in range(nf):
                        w.assume(w.not_(w.equal(X[0][i], mu[k][j][i])))
    po, ll = weights(w, sp, tm, fp, lengths)
    g = []
    for t in range(n):
        row = []
        for k in range(nc):
            d = [wt[k][j] * w.exp(log_mvn(w, X[t], mu[k][j], cov[k][j]))
                 for j in range(nm)]
            row += [po[t][k] * (x / summed(d)) for x in d]
        g.append(row)
    m = make(fp, n_iter=1)
    ls = None if len(lengths) == 1 else list(lengths)
    try:
        m.fit(X, ls)
    except ValueError:
        if impl == "log" and w.symbolic:
            raise
        return
    if not objective(w, m, ll):
        return
    N = [summed(g[t][k] for t in range(n)) for k in range(nc * nm)]
    for k in range(nc):
        discrete(w, f"weights_[{k}]", N[k * nm:(k + 1) * nm], wt[k],
                 m.weights_[k])
    c2 = np.asarray(m.covars_)
    cov2 = []
    for k in range(nc):
        for j in range(nm):
            x = c2[k] if ctype == "tied" else c2[k][j]
            if ctype in ("spherical", "diag"):
                x = [[(x if ctype == "spherical" else x[i]) if i == l
                      else w.num(0) for l in range(nf)] for i in range(nf)]
            cov2.append(x)
    flat = [cov[k][j] for k in range(nc) for j in range(nm)]
    m1 = [mu[k][j] for k in range(nc) for j in range(nm)]
    m2 = [m.means_[k][j] for k in range(nc) for j in range(nm)]
    groups = [list(range(k * nm, k * nm + nm)) for k in range(nc)] \
        if ctype == "tied" else [[k] for k in range(nc * nm)]
    for grp, s in normal_block(w, "", g, X, m1, flat, m2, cov2, groups):
        # (the scatter is taken around the old means)
        cert = summed(N[k] * quad(adj(cov2[k]), [
            m1[k][i] - m2[k][i] for i in range(nf)], det(cov2[k]))
            for k in grp)
        tag = f"means_ and covars_ {grp}"
        if w.symbolic:
            w.eq(tag + ": gain", s, cert)
        else:
            w.true(tag + " do not lower the objective",
                   float(s) >= -1e-5 * (1 + abs(float(cert))))
    if not w.symbolic:
        climbs(w, make(None, n_iter=6, tol=-np.inf), more(
            X, 16, lambda r: r.normal(size=nf) + 3 * r.randint(3)),
            [7, 1, 8])


def kl_identity(w, tag, N, old, new, prior):
    """sum N E[log p] - KL(q||prior) grows by KL(old||new) from old to
    new."""
    def F(q):
        s = w.digamma(summed(list(q)))
        return summed(n * (w.digamma(x) - s) for n, x in zip(N, q)) \
            - dirichlet(w, q, prior)
    if w.symbolic:
        w.eq(f"{tag}: gain", F(new) - F(old), dirichlet(w, old, new))
    else:
        w.true(f"{tag} does not lower the objective",
               float(F(new) - F(old)) >= -1e-6)


def vchain_blocks(w, m, old, start, trans):
    sq, s0, tq, t0 = old
    kl_identity(w, "startprob_posterior_", start, sq,
                m.startprob_posterior_, s0)
    for i in range(len(sq)):
        kl_identity(w, f"transmat_posterior_[{i}]", trans[i], tq[i],
                    m.transmat_posterior_[i], t0[i])


def vcategorical(w, nc, nf, xs, lengths, impl, **_):
    from props.c18 import olds
    p = dict(sq=w.poss("sq", nc), sp=w.poss("sp", nc),
             tq=w.poss("tq", nc, nc), tp=w.poss("tp", nc, nc),
             eq=w.poss("eq", nc, nf), ep=w.poss("ep", nc, nf))

    def make(**kw):
        m = w.mod("vhmm").VariationalCategoricalHMM(
            n_components=nc, n_features=nf, implementation=impl,
            init_params="", **kw)
        m.startprob_posterior_, m.startprob_prior_ = p["sq"], p["sp"]
        m.transmat_posterior_, m.transmat_prior_ = p["tq"], p["tp"]
        m.emissionprob_posterior_ = p["eq"]
        m.emissionprob_prior_ = p["ep"]
        return m
    m = make(n_iter=1)
    old = olds(m)
    sp, eq, e0 = subnorm(w, p["sq"]), p["eq"], p["ep"]
    tm = w.asarray(np.array([list(subnorm(w, p["tq"][i]))
                             for i in range(nc)], dtype=object))
    e = [subnorm(w, eq[k]) for k in range(nc)]
    fp = w.asarray(np.array([[e[k][s] for k in range(nc)] for s in xs],
                            dtype=object))
    po, start, trans, ll = expected(w, sp, tm, fp, lengths)
    ls = None if len(lengths) == 1 else list(lengths)
    try:
        m.fit(np.array(xs)[:, None], ls)
    except ValueError:
        if impl == "log":
            raise
        return
    vchain_blocks(w, m, old, start, trans)
    for k in range(nc):
        N = [summed([w.num(0)] + [po[t][k] for t in range(len(xs))
                                  if xs[t] == s]) for s in range(nf)]
        kl_identity(w, f"emissionprob_posterior_[{k}]", N, eq[k],
                    m.emissionprob_posterior_[k], e0[k])
    if not w.symbolic:
        climbs(w, make(n_iter=8, tol=-np.inf), more(
            eq, 14, lambda r: [r.randint(nf)]), [6, 1, 7])


def nw_kl(w, q, p, tied):
    """between normal-Wishart posteriors: per-state means, precisions of the
    means, degrees of freedom and inverse scales."""
    from props.c19 import wishart
    out = w.num(0)
    for k in range(len(q[0])):
        (mq, bq, dq, sq), (mp, bp, dp, sp) = [[x[k] for x in y]
                                              for y in (q, p)]
        nf = len(mq)
        y = [mq[i] - mp[i] for i in range(nf)]
        out = out + (w.num(nf) * (w.log(bq) - w.log(bp) + bp / bq - 1)
                     + bp * dq * quad(adj(sq), y, det(sq))) / 2
        if not tied or k == 0:
            out = out + wishart(w, dq, sq, dp, sp)
    return out


def vgaussian(w, nc, nf, lengths, ctype, impl, params, **_):
    from props.c18 import chain, hyper
    stubs.reset()
    n = sum(lengths)
    fp = w.poss("b", n, nc)

    def make(frames, **kw):
        C = w.mod("vhmm").VariationalGaussianHMM
        if frames is not None:
            C = abstracted(w, C, frames, "_compute_subnorm_log_likelihood")
        m = C(n_components=nc, covariance_type=ctype, implementation=impl,
              params=params, init_params="", random_state=0, **kw)
        sp, tm = chain(w, m, nc)
        if n == len(lengths):
            # (one-sample sequences: the posteriors stay arbitrary)
            s = w.pos("s")
            m.startprob_posterior_ = w.asarray([s] * nc)
            sp = subnorm(w, m.startprob_posterior_)
        return m, (sp, tm), hyper(w, m, nc, nf, ctype)
    m, (sp, tm), (v, f) = make(fp, n_iter=1)
    X = w.reals("x", n, nf)
    # the chain's shape does not matter for the emissions' posteriors
    po, start, trans, ll = expected(w, sp, tm, fp, lengths)
    m._compute_lower_bound = lambda log_prob: log_prob
    ls = None if len(lengths) == 1 else list(lengths)
    try:
        m.fit(X, ls)
    except ValueError:
        if impl == "log" and w.symbolic:
            raise
        return
    tied = ctype == "tied"

    def mats(x):
        return [[[x[i][j] for j in range(nf)] for i in range(nf)]
                if tied else [[x[k] if ctype == "spherical" else x[k][i]
                               if ctype == "diag" else x[k][i][j]
                               if i == j or ctype == "full" else w.num(0)
                               for j in range(nf)] for i in range(nf)]
                for k in range(nc)]

    def dofs(x):
        return [x] * nc if tied else [x[k] for k in range(nc)]
    old = (v["means_posterior_"], v["beta_posterior_"], f["dof_posterior"],
           f["scale_posterior"])
    pri = (v["means_prior_"], v["beta_prior_"], f["dof_prior"],
           f["scale_prior"])
    new = (m.means_posterior_, m.beta_posterior_, dofs(m.dof_posterior_),
           mats(m.scale_posterior_))

    def F(q):
        s = w.num(0)
        for k in range(nc):
            mq, bq, dq, sq = [x[k] for x in q]
            D, A = det(sq), adj(sq)
            el = w.num(nf) * w.log(w.num(2)) - w.log(D) + summed(
                w.digamma((dq - i) / 2) for i in range(nf)) - nf / bq
            for t in range(n):
                s = s + po[t][k] * (el - dq * quad(
                    A, [X[t][i] - mq[i] for i in range(nf)], D)) / 2
        return s - nw_kl(w, q, pri, tied)
    gain = F(new) - F(old)
    if w.symbolic:
        w.eq("means and scales: gain", gain, nw_kl(w, old, new, tied))
    else:
        w.true("means and scales do not lower the objective",
               float(gain) >= -1e-6 * (1 + abs(float(F(old)))))
        m, *_ = make(None, n_iter=6, tol=-np.inf)
        climbs(w, m, more(X, 16, lambda r: r.normal(size=nf)
                          + 3 * r.randint(2)), [7, 1, 8])


def harnesses(tier):
    hs = []
    q = tier == "quick"
    for impl in ("log", "scaling"):
        for nc, ls in ((2, (2,)), (2, (3,)), (2, (1, 2)), (3, (2,))) + (
                () if q else ((2, (4,)), (2, (2, 2)), (3, (3,)))):
            hs.append(Harness(
                f"structure-{nc}-{'+'.join(map(str, ls))}-{impl}", structure,
                dict(nc=nc, lengths=ls, impl=impl,
                     pattern=("full", "zero", "one", "ident")
                     if nc == 2 else ("full",)), cost=nc ** sum(ls),
                bound=f"start and transitions: {nc} states, sequences of "
                f"{ls} samples, zero patterns"))
        for nc, nf, xs, ls in ((2, 2, [0, 1], (2,)), (2, 3, [1, 2], (1, 1)),
                               (2, 2, [0, 0], (2,))) + (() if q else (
                                   (2, 2, [0, 1, 0], (3,)),
                                   (2, 3, [0, 1, 2], (2, 1)),
                                   (3, 2, [0, 1], (2,)))):
            hs.append(Harness(
                f"categorical-{nc}-{nf}-{''.join(map(str, xs))}-"
                f"{'+'.join(map(str, ls))}-{impl}", categorical,
                dict(nc=nc, nf=nf, xs=xs, lengths=ls, impl=impl), cost=20,
                bound=f"CategoricalHMM: {nc} states, {nf} symbols, "
                f"sequences of {ls} samples"))
        for nc, nf, xs, ls in ((2, 2, [[2, 1], [0, 1]], (2,)),
                               (2, 2, [[1, 1], [2, 0]], (1, 1))):
            hs.append(Harness(
                f"multinomial-{nc}-{nf}-{'+'.join(map(str, ls))}-{impl}",
                multinomial, dict(nc=nc, nf=nf, xs=xs, lengths=ls, impl=impl),
                cost=20, bound=f"MultinomialHMM: {nc} states, {nf} symbols, "
                f"sequences of {ls} samples, counts up to 2"))
        for nc, nf, xs, ls in ((2, 1, [[2], [0]], (2,)),
                               (2, 2, [[1, 2], [3, 0]], (1, 1))):
            hs.append(Harness(
                f"poisson-{nc}-{nf}-{'+'.join(map(str, ls))}-{impl}",
                poisson, dict(nc=nc, nf=nf, xs=xs, lengths=ls, impl=impl),
                cost=20, bound=f"PoissonHMM: {nc} states, {nf} features, "
                f"sequences of {ls} samples, counts up to 3"))
        for ct in ("spherical", "diag", "tied", "full"):
            for nc, nf, ls, ps in ((2, 1, (2,), "mc"), (2, 1, (2,), "m"),
                                   (2, 1, (2,), "c"), (1, 2, (3,), "mc"),
                                   (2, 1, (2,), "stmc")):
                if ps == "stmc" and ct in ("tied", "full"):
                    continue
                hs.append(Harness(
                    f"gaussian-{ct}-{nc}-{nf}-{'+'.join(map(str, ls))}-{ps}"
                    f"-{impl}", gaussian, dict(
                        nc=nc, nf=nf, lengths=ls, ctype=ct, impl=impl,
                        params=ps), cost=20,
                    bound=f"GaussianHMM {ct}: {nc} states, {nf} features, "
                    f"sequences of {ls} samples"))
            for nc, nm, nf, ls, ps in ((1, 2, 1, (2,), "mcw"),
                                       (2, 1, 1, (1, 1), "mcw"),
                                       (1, 2, 1, (2,), "mw"),
                                       (1, 2, 1, (2,), "c"),
                                       (1, 1, 2, (2,), "mc")):
                hs.append(Harness(
                    f"mixture-{ct}-{nc}-{nm}-{nf}-{'+'.join(map(str, ls))}-"
                    f"{ps}-{impl}", mixture, dict(
                        nc=nc, nm=nm, nf=nf, lengths=ls, ctype=ct, impl=impl,
                        params=ps), cost=20, overrides=stubs.CLUSTER,
                    bound=f"GMMHMM {ct}: {nc} states, {nm} components, {nf} "
                    f"features, sequences of {ls} samples"))
            for nc, nf, ls, ps in ((1, 1, (2,), "mc"), (2, 1, (1, 1), "m"),
                                   (1, 2, (2,), "mc"), (1, 1, (2,), "m")):
                if nf > 1 and ct in ("diag", "spherical"):
                    continue
                hs.append(Harness(
                    f"vgaussian-{ct}-{nc}-{nf}-{'+'.join(map(str, ls))}-{ps}-"
                    f"{impl}", vgaussian, dict(
                        nc=nc, nf=nf, lengths=ls, ctype=ct, impl=impl,
                        params=ps), cost=20, overrides=stubs.CLUSTER,
                    bound=f"VariationalGaussianHMM {ct}: {nc} states, {nf} "
                    f"features, sequences of {ls} samples"))
        for nc, nf, xs, ls in ((2, 2, [0, 1], (2,)), (2, 3, [1, 2], (1, 1)),
                               (1, 3, [0, 1, 0], (3,))):
            hs.append(Harness(
                f"vcategorical-{nc}-{nf}-{''.join(map(str, xs))}-"
                f"{'+'.join(map(str, ls))}-{impl}", vcategorical,
                dict(nc=nc, nf=nf, xs=xs, lengths=ls, impl=impl), cost=20,
                bound=f"VariationalCategoricalHMM: {nc} states, {nf} "
                f"symbols, sequences of {ls} samples"))
    return hs
