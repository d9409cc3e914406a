"""C10 Gaussian re-estimation."""
import numpy as np
from symx.runner import Harness
from props.spec import summed
from props.models import gaussian, larger
from props.c09 import run, weights

ASSUMPTIONS = ["with several states and transitions the start and transition "
               "probabilities are fixed rationals (posteriors stay arbitrary "
               "through the frame probabilities)",
               "real arithmetic: rounding is not modelled",
               "emission densities are arbitrary positive numbers (their "
               "form is C06's subject), so posteriors are arbitrary"]


def step(w, nc, nf, lengths, ctype, impl, params, pr, floor=False):
    n = sum(lengths)
    fp = w.poss("b", n, nc)
    kw = {}
    mw, mp = w.num(0), np.zeros((nc, nf))
    if pr != "default":
        mw = w.pos("mw")
        if pr == "scalar":
            x = w.real("mp")
            mp, kw["means_prior"] = w.arr((nc, nf), lambda *i: x), x
        else:
            mp = w.reals("mp", nc, nf)
            kw["means_prior"] = mp
        kw["means_weight"] = mw
    full = ctype in ("tied", "full")
    if pr == "default":
        cp, cw = w.num(.01), w.num(0)
        cparr = w.arr((nc, nf, nf), lambda *i: cp)
        kw["covars_weight"] = 1     # the default
    else:
        d = w.pos("cw")
        cw = d
        kw["covars_weight"] = d + (nf if full else 1)
        if pr == "scalar":
            cp = w.pos("cp")
            cparr = w.arr((nc, nf, nf), lambda *i: cp)
            kw["covars_prior"] = cp
        else:
            a = w.poss("cp", nf, nf) if full else w.poss("cp", nc, nf)
            kw["covars_prior"] = a
            cparr = w.arr((nc, nf, nf), lambda k, i, j:
                          a[i][j] if full else a[k][i])
    m, sp, tm, mu, cov = gaussian(
        w, nc, nf, ctype, frames=fp, implementation=impl, n_iter=1,
        params=params, init_params="", fixed=nc > 1 and len(lengths) < n, **kw)
    X = w.reals("x", n, nf)
    po, ll = weights(w, sp, tm, fp, lengths)
    N = [summed(po[t][k] for t in range(n)) for k in range(nc)]
    if not floor and not full:
        for k in range(nc):
            w.assume(w.le(w.num(1e-5), N[k]))
    if not run(w, m, X, lengths, impl):
        return
    if "m" in params:
        mu = [[(mw * mp[k][i] + summed(po[t][k] * X[t][i] for t in range(n)))
               / (mw + N[k]) for i in range(nf)] for k in range(nc)]
    w.eq("means_", m.means_, mu)
    mu = m.means_ if "m" in params else mu
    if "c" not in params:
        w.eq("covars_", m.covars_, np.array(cov, dtype=object)
             if w.symbolic else np.array(cov))
        return

    def scatter(k, i, j):
        return mw * (mu[k][i] - mp[k][i]) * (mu[k][j] - mp[k][j]) + summed(
            po[t][k] * (X[t][i] - mu[k][i]) * (X[t][j] - mu[k][j])
            for t in range(n))
    Z = w.num(0)
    if ctype in ("diag", "spherical"):
        v = [[(cparr[k][i][i] + scatter(k, i, i))
              / w.maximum(cw + N[k], 1e-5) for i in range(nf)]
             for k in range(nc)]
        if ctype == "spherical":
            v = [[summed(r) / nf] * nf for r in v]
        exp = [[[v[k][i] if i == j else Z for j in range(nf)]
                for i in range(nf)] for k in range(nc)]
    elif ctype == "full":
        exp = [[[(cparr[k][i][j] + scatter(k, i, j)) / (cw + N[k])
                 for j in range(nf)] for i in range(nf)] for k in range(nc)]
    else:
        exp = [[[(cparr[0][i][j] + summed(scatter(k, i, j)
                                          for k in range(nc)))
                 / (cw + summed(N)) for j in range(nf)]
                for i in range(nf)]] * nc
    w.eq("covars_", m.covars_, exp)


def harnesses(tier):
    hs = []
    q = tier == "quick"
    cfg = [(2, 1, (2,), "array"), (2, 2, (1,), "scalar"),
           (2, 1, (1, 1), "default"), (1, 2, (2, 1), "array")]
    if not q:
        cfg += [(2, 2, (2,), "array"), (2, 1, (3,), "scalar"),
                (2, 1, (2, 1), "default"), (1, 3, (2,), "array"),
                (3, 1, (2,), "array"), (1, 2, (4,), "scalar"),
                (2, 2, (1, 1), "default")]
    for ct in ("spherical", "diag", "tied", "full"):
        for impl in ("log", "scaling"):
            for nc, nf, ls, pr in cfg:
                for ps in ("mc", "c", "m", "stmc"):
                    if ps in ("m", "stmc") and pr != "array":
                        continue
                    hs.append(Harness(
                        f"step-{ct}-{nc}-{nf}-{'+'.join(map(str, ls))}-{pr}"
                        f"-{ps}-{impl}", step,
                        dict(nc=nc, nf=nf, lengths=ls, ctype=ct, impl=impl,
                             params=ps, pr=pr), cost=nc ** sum(ls) * nf ** 3,
                        bound=f"{ct}: n_components={nc}, n_features={nf}, "
                        f"sequences of {ls} samples, priors {pr}"))
        for impl, nc, nf, ls, pr in [
                ("scaling", 4, 3, (3, 2), "array"),
                ("scaling", 2, 4, (2, 1, 3), "scalar"),
                ("scaling", 2, 2, (12,), "default"),
                ("log", 4, 3, (1, 2, 1), "scalar"),
                ("log", 2, 4, (2, 1, 1, 2), "array")] + ([] if q else [
                    ("scaling", 6, 2, (3, 3), "array"),
                    ("scaling", 2, 5, (4, 4), "default"),
                    ("scaling", 3, 3, (20,), "array"),
                    ("log", 5, 5, (2, 2), "array")]):
            larger(hs, f"{ct}-{nc}-{nf}-{sum(ls)}-{pr}-{impl}", step,
                   "b0_1|x1_0|x3_1|mp|mp1_0|mw|cw|cp|cp0_1|cp1_0",
                   f"{ct}: n_components={nc}, n_features={nf}, sequences of "
                   f"{ls} samples, priors {pr}",
                   params=dict(nc=nc, nf=nf, lengths=ls, ctype=ct, impl=impl,
                               params="stmc", pr=pr))
        if ct in ("spherical", "diag"):
            hs.append(Harness(
                f"floor-{ct}", step, dict(
                    nc=2, nf=1, lengths=(1,), ctype=ct, impl="log",
                    params="c", pr="default", floor=True), cost=20,
                bound=f"{ct}: denominators below 1e-5"))
    return hs
