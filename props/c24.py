"""C24 the covariance attribute."""
import numpy as np
from symx.runner import Harness
from props.models import TINY, covariances, gaussian

ASSUMPTIONS = ["real arithmetic; eigenvalues of matrices up to 2x2 (3x3 only "
               "when diagonal)",
               "training: one iteration, arbitrary frame probabilities"]


def diag3(w, nc, nf):
    v = w.poss("c", nc, nf)
    return w.arr((nc, nf, nf), lambda k, i, j: v[k][i] if i == j
                 else w.num(0)), v


def roundtrip(w, nc, nf, ctype, cls="GaussianHMM", shape=None):
    mod = "hmm" if cls == "GaussianHMM" else "vhmm"
    m = getattr(w.mod(mod), cls)(n_components=nc, covariance_type=ctype)
    m.n_features = nf
    if cls == "GaussianHMM":
        m.means_ = w.reals("m", nc, nf)
    if nf > 2 and ctype in ("tied", "full"):
        full, v = diag3(w, nc, nf)
        cv = full if ctype == "full" else full[0]
        full = full if ctype == "full" else [full[0]] * nc
    else:
        cv, full = covariances(w, ctype, nc, nf)
    if ctype in ("spherical", "diag"):
        for x in np.ravel(cv):
            w.assume(w.lt(w.num(TINY), x))
    if shape == "wide":          # one variance per state, repeated
        cv = w.arr((nc, nf), lambda k, i: cv[k])
    want = w.asarray(np.array([[[full[k][i][j] for j in range(nf)]
                                for i in range(nf)] for k in range(nc)],
                              dtype=object))
    if shape == "list":
        arr = np.array(cv).tolist()
        m.covars_ = arr
    else:
        arr = cv
        m.covars_ = cv
    w.eq("covars_", m.covars_, want)
    # the model's own copy
    if shape == "list":
        for i in range(len(arr)):
            arr[i] = arr[i] * 0 if not isinstance(arr[i], list) else [
                0 for _ in arr[i]]
    else:
        for ix in np.ndindex(*np.shape(arr)):
            arr[ix] = arr[ix] * 3 + 1
    w.eq("covars_ after changing the assigned array", m.covars_, want)
    w.eq("covars_ read again", m.covars_, want)
    # through another model
    c2 = m.covars_
    m2 = getattr(w.mod(mod), cls)(n_components=nc, covariance_type=ctype)
    m2.n_features = nf
    c2 = {"spherical": [c[0, 0] for c in c2],
          "diag": [[c[i, i] for i in range(nf)] for c in c2],
          "tied": c2[0], "full": c2}[ctype]
    m2.covars_ = w.asarray(np.array(c2)) if ctype != "full" else c2
    w.eq("covars_ of a second model", m2.covars_, want)
    # reassign
    n = {"spherical": np.full(nc, 2.), "diag": np.full((nc, nf), 2.),
         "tied": 2 * np.eye(nf), "full": np.array([2 * np.eye(nf)] * nc)}
    m.covars_ = n[ctype]
    w.eq("covars_ reassigned", m.covars_, np.array([2 * np.eye(nf)] * nc))
    w.eq("covars_ of the second model after that", m2.covars_, want)


def trained(w, nc, nf, ns, ctype, params, iters=1):
    fp = w.poss("b", ns, nc)
    m, *_, cov = gaussian(w, nc, nf, ctype, frames=fp, n_iter=iters,
                          params=params, init_params="", fixed=True,
                          tol=-w.pos("tol") if iters > 1 else 1.)
    X = w.reals("x", ns, nf)
    m.fit(X)
    got = m.covars_
    w.eq("shape", np.array(np.shape(got)), np.array([nc, nf, nf]))
    if "c" not in params:
        w.eq("untrained covars_", got, w.asarray(np.array(
            [[[cov[k][i][j] for j in range(nf)] for i in range(nf)]
             for k in range(nc)], dtype=object)))
    for k in range(nc):
        for i in range(nf):
            for j in range(i):
                w.eq(f"symmetric[{k},{i},{j}]", got[k][i][j], got[k][j][i])
                if ctype in ("spherical", "diag"):
                    w.eq(f"diagonal[{k},{i},{j}]", got[k][i][j], w.num(0))
            if ctype == "spherical":
                w.eq(f"isotropic[{k},{i}]", got[k][i][i], got[k][0][0])
        if ctype == "tied":
            w.eq(f"shared[{k}]", got[k], got[0])


CT = ("spherical", "diag", "tied", "full")


def harnesses(tier):
    hs = []
    q = tier == "quick"
    for ct in CT:
        for nc, nf in [(1, 1), (2, 2), (3, 1), (2, 3)] + (
                [] if q else [(3, 2), (4, 2), (4, 3)]):
            for cls in ("GaussianHMM", "VariationalGaussianHMM"):
                for sh in (None, "list", "wide"):
                    if sh == "wide" and ct != "spherical":
                        continue
                    hs.append(Harness(
                        f"set-{cls}-{ct}-{nc}-{nf}-{sh}", roundtrip,
                        dict(nc=nc, nf=nf, ctype=ct, cls=cls, shape=sh),
                        kernel=None,
                        bound=f"{cls} {ct}: n_components={nc}, n_features="
                        f"{nf}, every admissible covariance"))
        for nc, nf, ns in [(2, 2, 2), (1, 2, 3), (2, 1, 2)]:
            for ps in ("c", "mc", "m"):
                hs.append(Harness(
                    f"fit-{ct}-{nc}-{nf}-{ns}-{ps}", trained,
                    dict(nc=nc, nf=nf, ns=ns, ctype=ct, params=ps),
                    cost=nc ** ns * nf ** 2,
                    bound=f"{ct}: one training step, n_components={nc}, "
                    f"n_features={nf}, {ns} samples"))
    return hs
