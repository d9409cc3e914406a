"""C13 selective initialisation and training."""
import itertools
import numpy as np
from symx import stubs
from symx.runner import Harness
from props.models import TINY, abstracted, covariances

ASSUMPTIONS = [
    "real arithmetic: rounding is not modelled",
    "clustering is replaced by an arbitrary labelling and arbitrary centres",
    "'the same as training everything' is claimed for every letter but 'c' "
    "without 'm' (the scatter is then taken around other means), which only "
    "has to move",
]

DISCRETE = {
    "CategoricalHMM": "ste", "MultinomialHMM": "ste", "PoissonHMM": "stl",
    "VariationalCategoricalHMM": "ste"}
CONTINUOUS = {"GaussianHMM": "stmc", "GMMHMM": "stmcw",
              "VariationalGaussianHMM": "stmc"}
NAMES = {
    "s": ("startprob_",), "t": ("transmat_",), "e": ("emissionprob_",),
    "l": ("lambdas_",), "m": ("means_",), "c": ("covars_",),
    "w": ("weights_",)}
VNAMES = {
    "s": ("startprob_posterior_",), "t": ("transmat_posterior_",),
    "e": ("emissionprob_posterior_",),
    "m": ("means_posterior_", "beta_posterior_"),
    "c": ("dof_posterior_", "scale_posterior_")}
PRIORS = {
    "s": ("startprob_prior_",), "t": ("transmat_prior_",),
    "e": ("emissionprob_prior_",), "m": ("means_prior_", "beta_prior_"),
    "c": ("dof_prior_", "scale_prior_")}


def names(cls, letter, unset=False):
    if cls.startswith("Variational"):
        return VNAMES[letter] + PRIORS[letter] if unset else VNAMES[letter]
    return NAMES[letter]


def make(w, cls, nc, nm, nf, ctype, frames, **kw):
    mod = w.mod("vhmm" if cls.startswith("V") else "hmm")
    C = getattr(mod, cls)
    if frames is not None:
        C = abstracted(w, C, frames, "_compute_subnorm_log_likelihood"
                       if cls.startswith("V") else "_compute_log_likelihood")
    a = {}
    if cls in CONTINUOUS:
        a["covariance_type"] = ctype
    if cls == "GMMHMM":
        a["n_mix"] = nm
    if cls == "MultinomialHMM":
        a["n_trials"] = 2
    return C(n_components=nc, n_iter=1,
                             random_state=w.random("r", zero=False) if w.symbolic
             else 0, **a, **kw)


def samples(w, cls, n, nf):
    if cls in CONTINUOUS:
        return w.reals("x", n, nf)
    if cls == "MultinomialHMM":
        return np.array([[2, 0], [1, 1], [0, 2]])[:n]
    if cls == "PoissonHMM":
        return np.array([[1, 0], [2, 3], [0, 1]])[:n, :nf]
    return np.array([[0], [1], [0]])[:n]


def start(w, cls, nc, nm, nf, ctype):
    """values of every parameter."""
    v = {}

    letters = (CONTINUOUS | DISCRETE)[cls]
    if cls.startswith("V"):
        v["startprob_posterior_"] = w.poss("sq", nc)
        v["startprob_prior_"] = w.poss("sp", nc)
        v["transmat_posterior_"] = w.poss("tq", nc, nc)
        v["transmat_prior_"] = w.poss("tp", nc, nc)
        if "e" in letters:
            v["emissionprob_posterior_"] = w.poss("eq", nc, nf)
            v["emissionprob_prior_"] = w.poss("ep", nc, nf)
        else:
            v["means_posterior_"] = w.reals("mq", nc, nf)
            v["means_prior_"] = w.reals("mp", nc, nf)
            v["beta_posterior_"] = w.poss("bq", nc)
            v["beta_prior_"] = w.poss("bp", nc)
            for z in ("posterior", "prior"):
                if ctype == "tied":
                    # plain numbers are required
                    v[f"dof_{z}_"] = 3. if z == "prior" else 4.5
                else:
                    v[f"dof_{z}_"] = w.poss(f"d{z}", nc) + nf
                v[f"scale_{z}_"] = covariances(w, ctype, nc, nf, f"sc{z}")[0]
    else:
        v["startprob_"] = w.simplex("p", nc, list(range(nc)))
        v["transmat_"] = w.stochastic("a", nc,
                                      support=[list(range(nc))] * nc)
        if "e" in letters:
            v["emissionprob_"] = w.stochastic(
                "e", nc, nf, support=[list(range(nf))] * nc)
        if "l" in letters:
            v["lambdas_"] = w.poss("l", nc, nf)
        if cls == "GaussianHMM":
            v["means_"] = w.reals("m", nc, nf)
            v["covars_"] = covariances(w, ctype, nc, nf)[0]
        if cls == "GMMHMM":
            v["weights_"] = w.stochastic("w", nc, nm,
                                         support=[list(range(nm))] * nc)
            v["means_"] = w.reals("m", nc, nm, nf)
            if ctype == "tied":
                cv = covariances(w, "full", nc, nf)[0]
            else:
                cv = np.asarray(covariances(w, ctype, nc * nm, nf)[0])
                cv = w.asarray(cv.reshape((nc, nm) + cv.shape[1:]))
            v["covars_"] = cv
        if "c" in letters and ctype in ("spherical", "diag"):
            for x in np.ravel(v["covars_"]):
                w.assume(w.lt(w.num(TINY), x))
    return v


def assign(w, m, cls, v, without=()):
    skip = {n for k in without for n in (
        names(cls, k, True) if len(k) == 1 else [k])}
    if cls in ("GaussianHMM", "GMMHMM", "VariationalGaussianHMM"):
        key = "means_" if "means_" in v else "means_posterior_"
        m.n_features = np.shape(v[key])[-1]
    for n, x in v.items():
        if n not in skip:
            setattr(m, n, w.asarray(np.array(x)) if np.ndim(x) else x)
    if cls == "CategoricalHMM" or cls == "VariationalCategoricalHMM":
        m.n_features = np.shape(v.get("emissionprob_", v.get(
            "emissionprob_posterior_")))[-1]


def value(m, n):
    return getattr(m, "_covars_" if n == "covars_" and
                   hasattr(m, "_covars_") else n)


def same(w, label, a, b):
    a, b = np.asarray(a), np.asarray(b)
    w.eq(label, a, b)


def moved(w, label, old, new):
    """new is not identically old."""
    a, b = np.asarray(old), np.asarray(new)
    if a.shape != b.shape:
        return
    cells = list(np.ndindex(*a.shape))
    if w.symbolic:
        diff = w.differ([(a[i], b[i]) for i in cells])
    else:
        pts = [x for x in w.point.values() if x not in (0, 1)]
        generic = len(set(pts)) == len(pts) and len(pts) >= len(
            w.point) / 2
        diff = not generic or any(a[i] != b[i] for i in cells)
    w.true(label, diff)


def fitted(w, cls, nc, nm, nf, ctype, n, lengths, params, impl, v, X,
           frames=None, without=(), init_params=""):
    stubs.reset()
    m = make(w, cls, nc, nm, nf, ctype, frames, params=params,
             init_params=init_params, implementation=impl)
    assign(w, m, cls, v, without)
    try:
        m.fit(X, lengths)
    except ValueError:
        if impl == "log":
            raise
        return None
    return m


def train(w, cls, nc, nm, nf, n, ctype, params, impl, lengths=None):
    letters = (CONTINUOUS | DISCRETE)[cls]
    X = samples(w, cls, n, nf)
    v = start(w, cls, nc, nm, nf, ctype)
    a = (w, cls, nc, nm, nf, ctype, n, lengths)
    frames = w.poss("b", n, nc)
    if impl == "scaling" and cls in DISCRETE:
        frames = None
    m = fitted(*a, params, impl, v, X, frames)
    if m is None:
        return
    full = m if set(params) in (set(letters), set()) else \
        fitted(*a, letters, impl, v, X, frames)
    for k in letters:
        for name in names(cls, k):
            old, new = v[name], value(m, name)
            if name == "covars_" and cls == "GaussianHMM":
                if ctype == "spherical":
                    old = np.repeat(np.asarray(old)[:, None], nf, axis=1) \
                        if np.ndim(new) == 2 else old
            if k not in params:
                same(w, f"{name} is not trained", new, old)
                continue
            if not (k in "st" and nc == 1 or k == "w" and nm == 1):
                moved(w, f"{name} is trained", old, new)
            if full is not m and (k != "c" or "m" in params):
                same(w, f"{name} is trained as always", new,
                     value(full, name))
        if cls.startswith("V"):
            for name in PRIORS[k]:
                same(w, f"{name} is kept", getattr(m, name), v[name])


def starting(w, cls, nc, nm, nf, n, ctype, unset, init_params):
    letters = (CONTINUOUS | DISCRETE)[cls]
    X = samples(w, cls, n, nf)
    if cls in CONTINUOUS:
        X = np.array([[1., -.5], [2.5, .25], [-1., 2.]])[:n, :nf]
    v = start(w, cls, nc, nm, nf, ctype)
    m = fitted(w, cls, nc, nm, nf, ctype, n, None, "", "log", v, X,
               np.ones((n, nc)), without=unset, init_params=init_params)
    for k in letters:
        for name in names(cls, k, True):
            old = v[name]
            w.true(f"{name} is set", hasattr(m, name))
            new = value(m, name)
            if k not in init_params and not any(
                    u == k or u in names(cls, k, True) for u in unset):
                same(w, f"{name} is the starting point", new, old)
                continue
            w.true(f"{name} has its shape",
                   np.shape(new) == np.shape(value(m, name)))
            if name in ("startprob_", "transmat_") and nc == 1:
                continue
            if k in init_params and not name.endswith("prior_"):
                moved(w, f"{name} is initialised", old, new)


def again(w, cls, nc, nf, n, ctype, params, **_):
    """two iterations, then the fitted model is used."""
    letters = (CONTINUOUS | DISCRETE)[cls]
    X = samples(w, cls, n, nf)
    if cls in CONTINUOUS:
        X = np.array([[1., -.5], [2.5, .25], [-1., 2.]])[:n, :nf]
    v = start(w, cls, nc, 1, nf, ctype)
    stubs.reset()
    m = make(w, cls, nc, 1, nf, ctype, np.ones((n, nc)), params=params,
             init_params="")
    m.n_iter, m.tol = 2, -np.inf
    m.monitor_.n_iter, m.monitor_.tol = 2, -np.inf
    assign(w, m, cls, v)
    m.fit(X)
    w.true("two iterations", m.monitor_.iter == 2)
    for k in letters:
        for name in names(cls, k):
            if k not in params:
                same(w, f"{name} is not trained", value(m, name), v[name])
    q = np.asarray(m.startprob_posterior_)
    tot = sum(q[1:], q[0])
    for i in range(nc):
        w.eq("startprob_ is the posterior mean",
             np.asarray(m.startprob_)[i] * tot, q[i])
    q = np.asarray(m.transmat_posterior_)
    for i in range(nc):
        tot = sum(q[i, 1:], q[i, 0])
        for j in range(nc):
            w.eq("transmat_ is the posterior mean",
                 np.asarray(m.transmat_)[i, j] * tot, q[i, j])
    if "e" in letters:
        q = np.asarray(m.emissionprob_posterior_)
        for i in range(nc):
            tot = sum(q[i, 1:], q[i, 0])
            for j in range(nf):
                w.eq("emissionprob_ is the posterior mean",
                     np.asarray(m.emissionprob_)[i, j] * tot, q[i, j])
    else:
        w.true("covariances are set",
               np.shape(m.covars_) == (nc, nf, nf))


def subsets(letters):
    for r in range(len(letters) + 1):
        yield from map("".join, itertools.combinations(letters, r))


def harnesses(tier):
    hs = []
    q = tier == "quick"
    for cls, letters in (DISCRETE | CONTINUOUS).items():
        for ct in (("spherical", "diag", "tied", "full")
                   if cls in CONTINUOUS else ("",)):
            for impl in ("log", "scaling"):
                for ps in subsets(letters):
                    if q and cls in CONTINUOUS and len(ps) not in (
                            0, 1, len(letters) - 1):
                        continue
                    if q and impl == "scaling" and cls in CONTINUOUS and \
                            (ct not in ("diag", "full") or len(ps) == 0):
                        continue
                    one = q and ct == "full" and ps != "c"
                    cfgs = [(2, 1, 1 if one else 2, 2)]
                    if cls == "VariationalGaussianHMM":
                        cfgs = [(2, 1, 1, 2)]
                    if cls == "GMMHMM":
                        cfgs = [(1, 2, 1, 2), (2, 1, 1, 2)]
                    for nc, nm, nf, n in cfgs:
                        hs.append(Harness(
                            f"train-{cls}-{ct}-{nc}-{nm}-{ps or 'none'}-"
                            f"{impl}", train,
                            dict(cls=cls, nc=nc, nm=nm, nf=nf, n=n, ctype=ct,
                                 params=ps, impl=impl),
                            overrides=stubs.CLUSTER, cost=20 * len(ps) + 1,
                            bound=f"{cls} {ct}: {nc} states, {nf} features, "
                            f"{n} samples, params={ps!r}"))
            for ps in subsets(letters.replace("c", "")) \
                    if cls.startswith("V") else ():
                hs.append(Harness(
                    f"again-{cls}-{ct}-{ps or 'none'}", again,
                    dict(cls=cls, nc=2, nf=2 if "e" in letters else 1, n=2,
                         ctype=ct, params=ps), overrides=stubs.CLUSTER,
                    cost=20, bound=f"{cls} {ct}: two iterations, 2 states, 2 "
                    f"samples of equal likelihoods, params={ps!r}"))
            sf = 1 if ct == "full" or cls == "GMMHMM" and \
                ct == "tied" else 2
            for un in subsets(letters):
                if q and len(un) not in (0, 1, len(letters)):
                    continue
                hs.append(Harness(
                    f"unset-{cls}-{ct}-{un or 'none'}", starting,
                    dict(cls=cls, nc=2, nm=2, nf=sf, n=3, ctype=ct, unset=un,
                         init_params=""), overrides=stubs.CLUSTER, cost=20,
                    bound=f"{cls} {ct}: 2 states, {sf} features, 3 samples, "
                    f"parameters {un!r} unset, init_params=''"))
                if len(un) == 1 and cls.startswith("V"):
                    # half of the group is missing: it is initialised
                    for half in names(cls, un, True):
                        hs.append(Harness(
                            f"unset-{cls}-{ct}-{half}", starting,
                            dict(cls=cls, nc=2, nm=2, nf=sf, n=3, ctype=ct,
                                 unset=[half], init_params=""),
                            overrides=stubs.CLUSTER, cost=20,
                            bound=f"{cls} {ct}: 2 states, {sf} features, 3 "
                            f"samples, {half} unset, init_params=''"))
                if not un:
                    continue
                hs.append(Harness(
                    f"init-{cls}-{ct}-{un}", starting,
                    dict(cls=cls, nc=2, nm=2, nf=sf, n=3, ctype=ct, unset="",
                         init_params=un), overrides=stubs.CLUSTER, cost=20,
                    bound=f"{cls} {ct}: 2 states, {sf} features, 3 samples, "
                    f"everything set, init_params={un!r}"))
    return hs
