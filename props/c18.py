"""C18 variational updates."""
import numpy as np
from symx import stubs
from symx.runner import Harness
from props.spec import joint, pairwise, paths, posterior, summed, total
from props.models import abstracted, adj, covariances, det, larger
from props.c09 import split

ASSUMPTIONS = [
    "real arithmetic: rounding is not modelled; digamma is an uninterpreted "
    "function (equal arguments give equal values)",
    "step-* harnesses: the sub-normalised emission probabilities are "
    "arbitrary positive numbers; density-* harnesses give their formula",
    "the spherical scale is updated with the average over the features",
    "clustering is replaced by an arbitrary result: nothing is initialised "
    "from it here",
]

CKEEP = "sq0|tq1_0|eq0_.|sp0|tp0_1|ep1_1"
GKEEP = "sp0|tp0_1|b0_1|x1_0|mp1_0|bp1|dprior.?|scprior0(_1)?|scpriord0"


def subnorm(w, q):
    """exp E[log p] under a Dirichlet."""
    s = summed(list(q))
    return w.asarray(np.array([w.exp(w.digamma(x) - w.digamma(s))
                               for x in q], dtype=object))


def chain(w, m, nc, fixed=False):
    """symbolic posteriors and priors, (subnorm start, subnorm trans)."""
    m.startprob_posterior_ = sq = w.poss("sq", nc)
    m.startprob_prior_ = w.poss("sp", nc)
    m.transmat_posterior_ = tq = w.poss("tq", nc, nc)
    m.transmat_prior_ = w.poss("tp", nc, nc)
    return subnorm(w, sq), w.asarray(np.array(
        [list(subnorm(w, tq[i])) for i in range(nc)], dtype=object))


def fit(w, m, X, lengths, impl):
    try:
        m.fit(X, None if len(lengths) == 1 else list(lengths))
    except ValueError:
        if impl == "log":
            raise
        return False
    return True


def expected(w, sp, tm, fp, lengths):
    """posteriors of all samples, start and transition counts, log mass."""
    subs = split(fp, lengths)
    pos = [posterior(w, sp, tm, f) for f in subs]
    nc = len(sp)
    start = [summed(p[0][i] for p in pos) for i in range(nc)]
    xis = [pairwise(w, sp, tm, f) for f in subs]
    trans = [[summed(x[i][j] for x in xis) for j in range(nc)]
             for i in range(nc)]
    ll = summed(w.log(total(w, sp, tm, f)) for f in subs)
    return [r for p in pos for r in p], start, trans, ll


def check_chain(w, m, old, start, trans, params):
    nc = len(start)
    sq, s0, tq, t0 = old
    w.eq("startprob_prior_", m.startprob_prior_, s0)
    w.eq("transmat_prior_", m.transmat_prior_, t0)
    if "s" in params:
        new = [s0[i] + start[i] for i in range(nc)]
        w.eq("startprob_posterior_", m.startprob_posterior_, new)
        w.eq("startprob_", m.startprob_, [x / summed(new) for x in new])
    else:
        w.eq("startprob_posterior_", m.startprob_posterior_, sq)
    if "t" in params:
        new = [[t0[i][j] + trans[i][j] for j in range(nc)]
               for i in range(nc)]
        w.eq("transmat_posterior_", m.transmat_posterior_, new)
        w.eq("transmat_", m.transmat_,
             [[x / summed(r) for x in r] for r in new])
    else:
        w.eq("transmat_posterior_", m.transmat_posterior_, tq)


def olds(m):
    return (m.startprob_posterior_, m.startprob_prior_,
            m.transmat_posterior_, m.transmat_prior_)


def categorical(w, nc, nf, xs, lengths, impl, params):
    m = w.mod("vhmm").VariationalCategoricalHMM(
        n_components=nc, n_features=nf, implementation=impl, n_iter=1,
        params=params, init_params="")
    sp, tm = chain(w, m, nc)
    m.emissionprob_posterior_ = eq = w.poss("eq", nc, nf)
    m.emissionprob_prior_ = e0 = w.poss("ep", nc, nf)
    old = olds(m)
    e = [subnorm(w, eq[k]) for k in range(nc)]
    x = [w.choose(nf) for _ in range(sum(lengths))] if xs is None else xs
    fp = w.asarray(np.array([[e[k][s] for k in range(nc)] for s in x],
                            dtype=object))
    po, start, trans, ll = expected(w, sp, tm, fp, lengths)
    if not fit(w, m, np.array(x)[:, None], lengths, impl):
        return
    check_chain(w, m, old, start, trans, params)
    w.eq("emissionprob_prior_", m.emissionprob_prior_, e0)
    if "e" not in params:
        w.eq("emissionprob_posterior_", m.emissionprob_posterior_, eq)
        return
    new = [[e0[k][s] + summed([w.num(0)] + [
        po[t][k] for t in range(len(x)) if x[t] == s]) for s in range(nf)]
        for k in range(nc)]
    w.eq("emissionprob_posterior_", m.emissionprob_posterior_, new)
    w.eq("emissionprob_", m.emissionprob_,
         [[v / summed(r) for v in r] for r in new])


def hyper(w, m, nc, nf, ctype):
    """symbolic Gaussian posteriors and priors; per-state full scales."""
    v = {}
    v["means_posterior_"] = w.reals("mq", nc, nf)
    v["means_prior_"] = w.reals("mp", nc, nf)
    v["beta_posterior_"] = w.poss("bq", nc)
    v["beta_prior_"] = w.poss("bp", nc)
    fulls = {}
    for z in ("posterior", "prior"):
        if ctype == "tied":
            d = w.pos(f"d{z}") + nf
            fulls["dof_" + z] = [d] * nc
        else:
            d = w.poss(f"d{z}", nc) + nf
            fulls["dof_" + z] = list(d)
        v[f"dof_{z}_"] = d
        v[f"scale_{z}_"], fulls["scale_" + z] = covariances(
            w, ctype, nc, nf, f"sc{z}")
    m.n_features = nf
    for k, x in v.items():
        setattr(m, k, x)
    return v, fulls


def gaussian(w, nc, nf, lengths, ctype, impl, params):
    stubs.reset()
    n = sum(lengths)
    fp = w.poss("b", n, nc)
    m = abstracted(w, w.mod("vhmm").VariationalGaussianHMM, fp,
                   "_compute_subnorm_log_likelihood")(
        n_components=nc, covariance_type=ctype, implementation=impl,
        n_iter=1, params=params, init_params="", random_state=0)
    sp, tm = chain(w, m, nc)
    old = olds(m)
    v, _ = hyper(w, m, nc, nf, ctype)
    m._compute_lower_bound = lambda log_prob: log_prob
    X = w.reals("x", n, nf)
    po, start, trans, ll = expected(w, sp, tm, fp, lengths)
    if not fit(w, m, X, lengths, impl):
        return
    check_chain(w, m, old, start, trans, params)
    for k in v:
        if "prior" in k:
            w.eq(k, getattr(m, k), v[k])
    R, T, C = range(nf), range(n), range(nc)
    N = [summed(po[t][k] for t in T) for k in C]
    b0, m0 = v["beta_prior_"], v["means_prior_"]
    b, mu = v["beta_posterior_"], v["means_posterior_"]
    if "m" in params:
        b = [b0[k] + N[k] for k in C]
        mu = [[(b0[k] * m0[k][i] + summed(po[t][k] * X[t][i] for t in T))
               / b[k] for i in R] for k in C]
    w.eq("beta_posterior_", m.beta_posterior_, b)
    w.eq("means_posterior_", m.means_posterior_, mu)
    w.eq("means_", m.means_, mu)
    if "c" not in params:
        w.eq("dof_posterior_", m.dof_posterior_, v["dof_posterior_"])
        w.eq("scale_posterior_", m.scale_posterior_, v["scale_posterior_"])
        return
    d0, s0 = v["dof_prior_"], v["scale_prior_"]
    mu, b = m.means_posterior_, m.beta_posterior_

    def S(k, i, j):
        """expected scatter plus the spread of the prior mean."""
        return summed(po[t][k] * X[t][i] * X[t][j] for t in T) \
            + b0[k] * m0[k][i] * m0[k][j] - b[k] * mu[k][i] * mu[k][j]
    if ctype == "tied":
        d = d0 + n
        s = [[s0[i][j] + summed(S(k, i, j) for k in C) for j in R]
             for i in R]
        c = [[x / d for x in r] for r in s]
    else:
        d = [d0[k] + N[k] for k in C]
        if ctype == "full":
            s = [[[s0[k][i][j] + S(k, i, j) for j in R] for i in R]
                 for k in C]
            c = [[[x / d[k] for x in r] for r in s[k]] for k in C]
        elif ctype == "diag":
            s = [[s0[k][i] + S(k, i, i) for i in R] for k in C]
            c = [[x / d[k] for x in s[k]] for k in C]
        else:
            s = [s0[k] + summed(S(k, i, i) for i in R) / nf for k in C]
            c = [s[k] / d[k] for k in C]
    w.eq("dof_posterior_", m.dof_posterior_, d)
    w.eq("scale_posterior_", m.scale_posterior_, s)
    got = m.covars_
    for k in C:
        for i in R:
            for j in R:
                if ctype == "tied":
                    e = c[i][j]
                elif ctype == "full":
                    e = c[k][i][j]
                elif i != j:
                    e = w.num(0)
                else:
                    e = c[k][i] if ctype == "diag" else c[k]
                w.eq(f"covars_[{k},{i},{j}]", got[k][i][j], e)


def density(w, nc, nf, n, ctype):
    """E[log N(x; mu, Lambda^-1)] under the normal-Wishart posterior, without
    the constant -nf/2 log 2 pi."""
    m = w.mod("vhmm").VariationalGaussianHMM(n_components=nc,
                                             covariance_type=ctype)
    v, f = hyper(w, m, nc, nf, ctype)
    X = w.reals("x", n, nf)
    got = m._compute_subnorm_log_likelihood(X)
    w.true("shape", np.shape(got) == (n, nc))
    mu, be = v["means_posterior_"], v["beta_posterior_"]
    for k in range(nc):
        sc, dof = f["scale_posterior"][k], f["dof_posterior"][k]
        D, A = det(sc), adj(sc)
        elog = w.num(nf) * w.log(w.num(2)) - w.log(D) + summed(
            w.digamma((dof - i) / 2) for i in range(nf))
        for t in range(n):
            y = [X[t][i] - mu[k][i] for i in range(nf)]
            q = summed(y[i] * A[i][j] * y[j] for i in range(nf)
                       for j in range(nf)) / D
            w.eq(f"[{t},{k}]", got[t][k],
                 (elog - nf / be[k] - dof * q) / 2)


def harnesses(tier):
    hs = []
    q = tier == "quick"
    for impl in ("log", "scaling"):
        cats = [(2, 2, None, (2,)), (2, 3, [2], (1,)), (2, 2, None, (1, 1)),
                (1, 3, None, (2,)), (2, 2, [0, 1, 0], (2, 1)),
                (3, 2, [1, 0], (2,))]
        if not q:
            cats += [(2, 2, None, (3,)), (2, 3, None, (2, 1)),
                     (3, 3, [2, 0], (1, 1)), (2, 2, [0, 1, 1, 0], (2, 2))]
        for nc, nf, xs, ls in cats:
            for ps in ("ste", "e", "st"):
                if ps != "ste" and (nc, nf, xs) != (2, 2, None):
                    continue
                hs.append(Harness(
                    f"categorical-{nc}-{nf}-{'any' if xs is None else ''.join(map(str, xs))}"
                    f"-{'+'.join(map(str, ls))}-{ps}-{impl}", categorical,
                    dict(nc=nc, nf=nf, xs=xs, lengths=ls, impl=impl,
                         params=ps), cost=10 * nc ** sum(ls),
                    bound=f"VariationalCategoricalHMM n_components={nc}, "
                    f"n_features={nf}, sequences of {ls} samples"))
        cfg = [(2, 1, (2,), "stm"), (1, 2, (2,), "mc"), (2, 2, (1, 1), "mc"),
               (2, 1, (1, 1), "stmc"), (2, 1, (2,), "m"), (2, 1, (1, 1), "st"),
               (1, 2, (2, 1), "stmc")]
        if not q:
            cfg += [(2, 1, (2,), "stmc"), (2, 1, (3,), "m"),
                    (1, 3, (2,), "mc"), (2, 1, (2, 1), "stm"),
                    (3, 1, (1, 1, 1), "stmc"), (1, 2, (3,), "mc"),
                    (2, 2, (2,), "mc")]
        for ct in ("spherical", "diag", "tied", "full"):
            for nc, nf, ls, ps in cfg:
                if q and (ct, impl, nf) == ("tied", "scaling", 2) and nc > 1:
                    continue
                hs.append(Harness(
                    f"step-{ct}-{nc}-{nf}-{'+'.join(map(str, ls))}-{ps}-"
                    f"{impl}", gaussian,
                    dict(nc=nc, nf=nf, lengths=ls, ctype=ct, impl=impl,
                         params=ps), cost=10 * nc ** sum(ls) * nf ** 2,
                    overrides=stubs.CLUSTER,
                    bound=f"VariationalGaussianHMM {ct}: n_components={nc}, "
                    f"n_features={nf}, sequences of {ls} samples"))
        for nc, nf, ls in [(4, 3, (2, 1)), (2, 5, (2, 1, 2)), (2, 2, (7,))] \
                + ([] if q else [(6, 2, (2, 2)), (3, 8, (2, 2, 1, 2)),
                                 (2, 3, (14,))]):
            n = sum(ls)
            if impl == "log" and (nc, nf) != (2, 5):
                continue            # (too slow)
            larger(hs, f"categorical-{nc}-{nf}-{n}-{impl}", categorical,
                   CKEEP, f"VariationalCategoricalHMM n_components={nc}, "
                   f"n_features={nf}, sequences of {ls} samples",
                   params=dict(nc=nc, nf=nf, lengths=ls, impl=impl,
                               xs=[(t * t + t // 2) % nf for t in range(n)],
                               params="ste"))
        for ct in ("spherical", "diag", "full"):
            if impl == "log":
                continue
            for nc, nf, ls in [(3, 2, (2, 1)), (2, 3, (1, 2, 1)),
                               (2, 1, (6,))] + (
                    [] if q else [(4, 3, (2, 1, 2)), (2, 2, (12,)),
                                  (6, 1, (1, 2))]):
                larger(hs, f"{ct}-{nc}-{nf}-{sum(ls)}-{impl}", gaussian,
                       GKEEP, f"VariationalGaussianHMM {ct}: n_components="
                       f"{nc}, n_features={nf}, sequences of {ls} samples",
                       overrides=stubs.CLUSTER,
                       params=dict(nc=nc, nf=nf, lengths=ls, ctype=ct,
                                   impl=impl, params="stmc"))
    for ct in ("spherical", "diag", "tied", "full"):
        for nc, nf, n in [(2, 1, 2), (2, 2, 1)] + (
                [] if q else [(2, 3, 1), (3, 2, 2)]):
            hs.append(Harness(
                f"density-{ct}-{nc}-{nf}-{n}", density,
                dict(nc=nc, nf=nf, n=n, ctype=ct), kernel=None,
                cost=nf ** 5, bound=f"VariationalGaussianHMM {ct}: "
                f"n_components={nc}, n_features={nf}, {n} samples"))
    return hs
