"""C19 divergences and the variational lower bound."""
import numpy as np
from symx import stubs
from symx.runner import Harness
from props.spec import summed
from props.models import abstracted, adj, det, spd
from props.c18 import chain, expected, fit, hyper, olds, subnorm

ASSUMPTIONS = [
    "real arithmetic: rounding is not modelled; digamma and log-gamma are "
    "uninterpreted functions (equal arguments give equal values)",
    "the Wishart divergence is taken between Wishart distributions given by "
    "degrees of freedom and inverse scale; diagonal and spherical posteriors "
    "count as Wishart ones with a diagonal scale, a tied one counts once",
    "that divergences are non-negative is not claimed",
    "clustering is replaced by an arbitrary result: nothing is initialised "
    "from it here",
]


def dirichlet(w, q, p):
    a, b = summed(list(q)), summed(list(p))
    return w.gammaln(a) - w.gammaln(b) + summed(
        w.gammaln(y) - w.gammaln(x) + (x - y) * (
            w.digamma(x) - w.digamma(a)) for x, y in zip(q, p))


def normal(w, mq, vq, mp, vp):
    return (w.log(vp) - w.log(vq) + (vq + (mq - mp) * (mq - mp)) / vp
            - 1) / 2


def mvn(w, mq, cq, mp, cp):
    n = len(mq)
    R = range(n)
    dp, ap = det(cp), adj(cp)
    tr = summed(ap[i][j] * cq[j][i] for i in R for j in R) / dp
    y = [mq[i] - mp[i] for i in R]
    qf = summed(y[i] * ap[i][j] * y[j] for i in R for j in R) / dp
    return (w.log(dp) - w.log(det(cq)) + tr + qf - n) / 2


def gamma(w, bq, cq, bp, cp):
    """shape b, rate c."""
    return ((bq - bp) * w.digamma(bq) - w.gammaln(bq) + w.gammaln(bp)
            + bp * (w.log(cq) - w.log(cp)) + bq * (cp - cq) / cq)


def wishart(w, dq, sq, dp, sp):
    """degrees of freedom d, inverse scale s."""
    n = len(sq)
    R = range(n)
    Dq, Dp, a = det(sq), det(sp), adj(sq)
    tr = summed(sp[i][j] * a[j][i] for i in R for j in R) / Dq
    lq, lp = w.log(Dq), w.log(Dp)
    kl = dp * (lq - lp) / 2 + dq * (tr - n) / 2
    for i in R:
        kl = kl + w.gammaln((dp - i) / 2) - w.gammaln((dq - i) / 2) \
            + (dq - dp) * w.digamma((dq - i) / 2) / 2
    return kl


def kl_dirichlet(w, n):
    kl = w.mod("_kl_divergence")
    q, p = w.poss("q", n), w.poss("p", n)
    w.eq("divergence", kl.kl_dirichlet(q, p), dirichlet(w, q, p))
    w.eq("divergence of lists", kl.kl_dirichlet(list(q), list(p)),
         dirichlet(w, q, p))
    w.eq("equal arguments", kl.kl_dirichlet(q, q), w.num(0))


def kl_normal(w, same):
    kl = w.mod("_kl_divergence")
    mq, vq = w.real("mq"), w.pos("vq")
    mp, vp = (mq, vq) if same else (w.real("mp"), w.pos("vp"))
    exp = w.num(0) if same else normal(w, mq, vq, mp, vp)
    if not same and not w.symbolic:
        w.generic(exp > 1e-9)
    try:
        got = kl.kl_normal_distribution(mq, vq, mp, vp)
    except AssertionError:
        if not w.symbolic:
            raise
        return
    w.eq("divergence", got, exp)


def kl_gamma(w, same):
    kl = w.mod("_kl_divergence")
    bq, cq = w.pos("bq"), w.pos("cq")
    bp, cp = (bq, cq) if same else (w.pos("bp"), w.pos("cp"))
    exp = w.num(0) if same else gamma(w, bq, cq, bp, cp)
    if not same and not w.symbolic:
        w.generic(exp > 1e-9)
    try:
        got = kl.kl_gamma_distribution(bq, cq, bp, cp)
    except AssertionError:
        if not w.symbolic:
            raise
        return
    w.eq("divergence", got, exp)


def kl_mvn(w, n):
    kl = w.mod("_kl_divergence")
    mq, mp = w.reals("mq", n), w.reals("mp", n)
    cq, cp = spd(w, "cq", n), spd(w, "cp", n)
    w.eq("divergence",
         kl.kl_multivariate_normal_distribution(mq, cq, mp, cp),
         mvn(w, mq, cq, mp, cp))
    w.eq("equal arguments",
         kl.kl_multivariate_normal_distribution(mq, cq, mq, cq), w.num(0))


def kl_wishart(w, n):
    kl = w.mod("_kl_divergence")
    dq, dp = w.pos("dq") + n, w.pos("dp") + n
    sq, sp = spd(w, "sq", n), spd(w, "sp", n)
    w.eq("divergence", kl.kl_wishart_distribution(dq, sq, dp, sp),
         wishart(w, dq, sq, dp, sp))
    w.eq("equal arguments", kl.kl_wishart_distribution(dq, sq, dq, sq),
         w.num(0))


def chain_kl(w, old):
    sq, s0, tq, t0 = old
    return dirichlet(w, sq, s0) + summed(
        dirichlet(w, a, b) for a, b in zip(tq, t0))


def categorical(w, nc, nf, xs, lengths, impl, params):
    m = w.mod("vhmm").VariationalCategoricalHMM(
        n_components=nc, n_features=nf, implementation=impl, n_iter=1,
        params=params, init_params="")
    sp, tm = chain(w, m, nc)
    m.emissionprob_posterior_ = eq = w.poss("eq", nc, nf)
    m.emissionprob_prior_ = e0 = w.poss("ep", nc, nf)
    old = olds(m)
    e = [subnorm(w, eq[k]) for k in range(nc)]
    fp = w.asarray(np.array([[e[k][s] for k in range(nc)] for s in xs],
                            dtype=object))
    *_, ll = expected(w, sp, tm, fp, lengths)
    if not fit(w, m, np.array(xs)[:, None], lengths, impl):
        return
    w.true("one value per iteration", len(m.monitor_.history) == 1)
    w.eq("objective", m.monitor_.history[0], ll - chain_kl(w, old)
         - summed(dirichlet(w, eq[k], e0[k]) for k in range(nc)))


def gaussian(w, nc, nf, lengths, ctype, impl, params, whole=True):
    """the objective; or only the divergences when not whole."""
    stubs.reset()
    n = sum(lengths)
    fp = w.poss("b", n, nc)
    m = abstracted(w, w.mod("vhmm").VariationalGaussianHMM, fp,
                   "_compute_subnorm_log_likelihood")(
        n_components=nc, covariance_type=ctype, implementation=impl,
        n_iter=1, params=params, init_params="", random_state=0)
    sp, tm = chain(w, m, nc)
    old = olds(m)
    v, f = hyper(w, m, nc, nf, ctype)
    if whole:
        *_, ll = expected(w, sp, tm, fp, lengths)
        if not fit(w, m, w.reals("x", n, nf), lengths, impl):
            return
        got = m.monitor_.history[0]
    else:
        ll = w.real("ll")
        got = m._compute_lower_bound(ll)
    exp = ll - chain_kl(w, old)
    R = range(nf)
    for k in range(nc):
        bq, bp = v["beta_posterior_"][k], v["beta_prior_"][k]
        mq, mp = v["means_posterior_"][k], v["means_prior_"][k]
        sq, s0 = f["scale_posterior"][k], f["scale_prior"][k]
        dq, d0 = f["dof_posterior"][k], f["dof_prior"][k]
        # expected divergence of the normals given the precision dq sq^-1
        D, A = det(sq), adj(sq)
        y = [mq[i] - mp[i] for i in R]
        q = dq * summed(y[i] * A[i][j] * y[j] for i in R for j in R) / D
        exp = exp - (w.num(nf) * (w.log(bq) - w.log(bp) + bp / bq - 1)
                     + bp * q) / 2
        if ctype != "tied" or k == 0:
            exp = exp - wishart(w, dq, sq, d0, s0)
    w.eq("objective", got, exp)


def harnesses(tier):
    hs = []
    q = tier == "quick"
    for n in (1, 2, 3, 4):
        hs.append(Harness(f"dirichlet-{n}", kl_dirichlet, dict(n=n),
                          kernel=None, bound=f"{n} categories"))
    for same in (False, True):
        hs.append(Harness(f"normal-{same}", kl_normal, dict(same=same),
                          kernel=None, bound="every mean and variance"))
        hs.append(Harness(f"gamma-{same}", kl_gamma, dict(same=same),
                          kernel=None, bound="every shape and rate"))
    for n in (1, 2, 3):
        hs.append(Harness(f"mvn-{n}", kl_mvn, dict(n=n), kernel=None,
                          cost=n ** 5, bound=f"{n} dimensions"))
        hs.append(Harness(f"wishart-{n}", kl_wishart, dict(n=n), kernel=None,
                          cost=n ** 5, bound=f"{n} dimensions"))
    for impl in ("log", "scaling"):
        for nc, nf, xs, ls, ps in [
                (2, 2, [0, 1], (2,), "ste"), (2, 3, [2, 0], (1, 1), "ste"),
                (1, 3, [0, 1, 0], (3,), "e"), (3, 2, [1], (1,), "st"),
                (2, 2, [0, 1, 1], (2, 1), "ste")]:
            hs.append(Harness(
                f"categorical-{nc}-{nf}-{''.join(map(str, xs))}-"
                f"{'+'.join(map(str, ls))}-{ps}-{impl}", categorical,
                dict(nc=nc, nf=nf, xs=xs, lengths=ls, impl=impl, params=ps),
                cost=20, bound=f"VariationalCategoricalHMM {nc} states, {nf} "
                f"symbols, sequences of {ls} samples"))
    for ct in ("spherical", "diag", "tied", "full"):
        for nc, nf, ls, ps, impl in [
                (2, 1, (2,), "stmc", "log"), (1, 2, (2,), "mc", "log"),
                (2, 1, (1, 1), "stmc", "scaling"), (1, 1, (3,), "m", "log"),
                (2, 1, (2,), "st", "scaling"), (2, 2, (2,), "stmc", "log"),
                (2, 1, (2, 1), "stmc", "log"),
                (3, 1, (1, 1, 1), "stmc", "scaling")] + (
                [] if q else [(2, 2, (2, 2), "stmc", "log"),
                              (3, 2, (3,), "stmc", "log")]):
            hs.append(Harness(
                f"gaussian-{ct}-{nc}-{nf}-{'+'.join(map(str, ls))}-{ps}-"
                f"{impl}", gaussian,
                dict(nc=nc, nf=nf, lengths=ls, ctype=ct, impl=impl,
                     params=ps), overrides=stubs.CLUSTER, cost=50 * nf ** 3,
                bound=f"VariationalGaussianHMM {ct}: {nc} states, {nf} "
                f"features, sequences of {ls} samples"))
        for nc, nf in [(2, 2), (3, 1), (1, 3), (3, 2)] + (
                [] if q else [(1, 4), (4, 3)]):
            hs.append(Harness(
                f"divergences-{ct}-{nc}-{nf}", gaussian,
                dict(nc=nc, nf=nf, lengths=(1,), ctype=ct, impl="log",
                     params="stmc", whole=False), kernel=None,
                overrides=stubs.CLUSTER, cost=50 * nf ** 3,
                bound=f"VariationalGaussianHMM {ct}: {nc} states, {nf} "
                "features, the objective from an arbitrary log-normaliser"))
    return hs
