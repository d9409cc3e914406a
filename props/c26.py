"""C26 read-only operations; training leaves its arguments alone."""
import copy
import numpy as np
from symx import stubs
from symx.runner import Harness
from props.c13 import CONTINUOUS, DISCRETE, assign, samples, start
from props.models import TINY, abstracted, covariances

ASSUMPTIONS = [
    "real arithmetic: rounding is not modelled",
    "a mixture model's missing or scalar priors may be replaced by arrays of "
    "the same value, n_features and n_trials may be filled in",
    "clustering is replaced by an arbitrary labelling and arbitrary centres",
]
OPS = ("score", "score_samples", "predict_proba", "decode", "map", "predict",
       "sample", "seeded", "aic", "bic", "covars_")


def build(w, cls, nc, nm, nf, ctype, impl, **kw):
    """a model with every learned attribute set, the arrays it was given."""
    mod = w.mod("vhmm" if cls.startswith("V") else "hmm")
    a = dict(kw)
    if cls in CONTINUOUS:
        a["covariance_type"] = ctype
    if cls == "GMMHMM":
        a["n_mix"] = nm
    if cls == "MultinomialHMM":
        a["n_trials"] = 2
    m = getattr(mod, cls)(n_components=nc, n_iter=1, random_state=0,
                          implementation=impl, **a)
    v = start(w, cls, nc, nm, nf, ctype)
    if cls.startswith("V"):
        v["startprob_"] = w.simplex("p", nc, list(range(nc)))
        v["transmat_"] = w.stochastic("a", nc, support=[list(range(nc))] * nc)
        if "e" in DISCRETE.get(cls, ""):
            v["emissionprob_"] = w.stochastic(
                "e", nc, nf, support=[list(range(nf))] * nc)
        else:
            cv = covariances(w, ctype, nc, nf)[0]
            if ctype in ("spherical", "diag"):
                for x in np.ravel(cv):
                    w.assume(w.lt(w.num(TINY), x))
            v["covars_"] = cv
    assign(w, m, cls, v)
    return m, v


def frozen(x):
    return x.copy() if isinstance(x, np.ndarray) else copy.copy(x) \
        if isinstance(x, (list, dict)) else x


def snapshot(m):
    return {k: frozen(x) for k, x in vars(m).items() if k != "monitor_"}


def unchanged(w, m, snap, given):
    for k, x in snap.items():
        if not hasattr(m, k):
            w.fail(f"{k} has disappeared")
            continue
        y = getattr(m, k)
        if x is None:
            w.true(f"{k}", y is None or k in (
                "n_features", "n_trials", "covars_prior", "covars_weight"))
        elif isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if np.shape(x) != np.shape(y) and not k.endswith("_"):
                x = np.broadcast_to(np.asarray(x), np.shape(y))
            w.eq(k, y, x)
        elif isinstance(x, (str, bool, int)):
            w.true(k, y == x and type(y) is type(x))
        elif np.ndim(x) == 0 and not callable(x):
            w.eq(k, y, x)
    for k, (now, then) in given.items():
        w.eq(f"{k} given by the caller", now, then)


def perform(w, m, op, X, lengths):
    if op == "map":
        return m.decode(X, lengths, algorithm="map")
    if op == "decode":
        return m.decode(X, lengths)
    if op == "covars_":
        return m.covars_
    if op == "sample":
        m.sample(2, random_state=w.random("u"))
        return None
    if op == "seeded":
        # from the model's own integer seed
        return m.sample(2)
    return getattr(m, op)(X, lengths)


def same(w, label, a, b):
    if isinstance(a, tuple):
        for i, (x, y) in enumerate(zip(a, b)):
            same(w, f"{label}[{i}]", x, y)
    elif a is not None:
        w.eq(label, a, b)


def readonly(w, cls, nc, nm, nf, n, ctype, impl, op, lengths):
    stubs.reset(w if w.symbolic else None)
    m, v = build(w, cls, nc, nm, nf, ctype, impl)
    X = samples(w, cls, n, nf)
    L = None if lengths is None else list(lengths)
    first = None
    given = {"X": (X, X.copy())}
    if L is not None:
        given["lengths"] = (L, list(L))
    snap = snapshot(m)
    try:
        first = perform(w, m, op, X, L)
        keep = tuple(frozen(x) for x in first) if isinstance(first, tuple) \
            else frozen(first)
        unchanged(w, m, snap, given)
        # a result belongs to the caller
        for r in first if isinstance(first, tuple) else (first,):
            if op != "covars_" and isinstance(r, np.ndarray) and \
                    r.dtype.kind in "Of":
                r *= 0
        unchanged(w, m, snap, given)
        second = perform(w, m, op, X, L)
    except (ValueError, AssertionError):
        if impl == "log":
            raise
        unchanged(w, m, snap, given)
        return
    same(w, "repeated", second, keep)
    unchanged(w, m, snap, given)


def priors(w, cls, nc, nm, nf, ctype):
    """array-valued hyper-parameters."""
    p = {"startprob_prior": w.poss("hs", nc) + 1,
         "transmat_prior": w.poss("ht", nc, nc) + 1}
    if cls == "CategoricalHMM":
        p["emissionprob_prior"] = w.poss("he", nc, nf) + 1
    if cls == "VariationalCategoricalHMM":
        p = {"startprob_prior": w.poss("hs", nc),
             "transmat_prior": w.poss("ht", nc, nc)}
    if cls == "PoissonHMM":
        p["lambdas_prior"] = w.poss("hl", nc, nf)
        p["lambdas_weight"] = w.poss("hw", nc, nf)
    if cls == "GaussianHMM":
        p["means_prior"] = w.reals("hm", nc, nf)
        p["means_weight"] = 2.
        p["covars_prior"] = w.poss("hc", nc, nf) if ctype in (
            "diag", "spherical") else covariances(w, ctype, nc, nf, "hc")[0]
    if cls == "GMMHMM":
        p["weights_prior"] = w.poss("hv", nc, nm) + 1
        p["means_prior"] = w.reals("hm", nc, nm, nf)
        p["means_weight"] = w.poss("hw", nc, nm)
        sh = {"spherical": (nc, nm), "diag": (nc, nm, nf),
              "tied": (nc, nf, nf), "full": (nc, nm, nf, nf)}[ctype]
        p["covars_prior"] = w.poss("hc", *sh)
        p["covars_weight"] = w.poss("hd", *{
            "tied": (nc,), "diag": (nc, nm, nf)}.get(ctype, (nc, nm)))
    if cls == "VariationalGaussianHMM":
        p["means_prior"] = w.reals("hm", nc, nf)
        p["beta_prior"] = w.poss("hb", nc)
        if ctype != "tied":
            p["dof_prior"] = w.poss("hd", nc) + nf
        p["scale_prior"] = covariances(w, ctype, nc, nf, "hs")[0]
    return p


def training(w, cls, nc, nm, nf, n, ctype, impl, init):
    stubs.reset()
    letters = (CONTINUOUS | DISCRETE)[cls]
    mod = w.mod("vhmm" if cls.startswith("V") else "hmm")
    pr = priors(w, cls, nc, nm, nf, ctype)
    then = {k: frozen(x) for k, x in pr.items()}
    a = dict(pr)
    if cls in CONTINUOUS:
        a["covariance_type"] = ctype
    if cls == "GMMHMM":
        a["n_mix"] = nm
    trials = None
    if cls == "MultinomialHMM":
        trials = np.array([2] * n)
        a["n_trials"] = trials
    frames = w.poss("b", n, nc)
    C = abstracted(w, getattr(mod, cls), frames,
                   "_compute_subnorm_log_likelihood" if cls.startswith("V")
                   else "_compute_log_likelihood")
    m = C(n_components=nc, n_iter=1, implementation=impl,
          init_params=letters if init else "", random_state=0, **a)
    given = {k: (pr[k], then[k]) for k in pr}
    if trials is not None:
        given["n_trials"] = trials, trials.copy()
    if not init:
        v = start(w, cls, nc, nm, nf, ctype)
        skip = ()
        for k, x in v.items():
            y = np.array(x)
            y = w.asarray(y) if np.ndim(y) else x
            setattr(m, k, y)
            if np.ndim(y):
                given[k] = y, frozen(y)
        if cls in CONTINUOUS:
            m.n_features = nf
        elif "Categorical" in cls:
            m.n_features = nf
    X = samples(w, cls, n, nf)
    if init and cls in CONTINUOUS:
        X = w.asarray(np.array([[1., -.5], [2.5, .25], [-1., 2.]])[:n, :nf])
    given["X"] = X, X.copy()
    L = [1, n - 1]
    given["lengths"] = L, list(L)
    try:
        m.fit(X, L)
    except ValueError:
        if impl == "log":
            raise
    for k, (now, old) in given.items():
        w.eq(f"{k} given by the caller", now, old)
    if not cls.startswith("GMM"):
        # the attribute still is what was given
        for k in pr:
            w.eq(k, getattr(m, k), then[k])
    if cls == "MultinomialHMM":
        w.eq("n_trials", m.n_trials, given["n_trials"][1])


def harnesses(tier):
    hs = []
    q = tier == "quick"
    for cls in DISCRETE | CONTINUOUS:
        for ct in (("spherical", "diag", "tied", "full")
                   if cls in CONTINUOUS else ("",)):
            sf = 2 if cls in DISCRETE else 1
            if cls == "GaussianHMM" and ct not in ("full", "tied"):
                sf = 2
            cfg = [(2, 1, sf, 2, None)]
            if cls == "GMMHMM":
                cfg = [(1, 2, 1, 2, None)]
            cfg.append((1, 1, sf, 2, (1, 1)))
            if not q:
                cfg.append((2, 1, 2, 3, (2, 1)))
            for impl in ("log", "scaling"):
                for op in OPS:
                    if op == "covars_" and cls not in (
                            "GaussianHMM", "VariationalGaussianHMM"):
                        continue
                    if op in ("aic", "bic") and cls.startswith("V"):
                        continue
                    for nc, nm, nf, n, ls in cfg:
                        if op in ("sample", "seeded", "covars_") and (
                                ls or impl == "scaling"):
                            continue
                        if op in ("aic", "bic", "predict") and q and \
                                impl == "scaling":
                            continue
                        hs.append(Harness(
                            f"{op}-{cls}-{ct}-{nc}-{n}-"
                            f"{'one' if ls is None else 'two'}-{impl}",
                            readonly, dict(
                                cls=cls, nc=nc, nm=nm, nf=nf, n=n, ctype=ct,
                                impl=impl, op=op, lengths=ls), cost=10 * nc,
                            overrides=stubs.SEEDED,
                            bound=f"{cls} {ct}: {nc} states, {nf} features, "
                            f"{n} samples, {op} twice"))
                for init in (False, True):
                    nc, nm = (1, 2) if cls == "GMMHMM" else (2, 1)
                    if init and impl == "scaling":
                        continue
                    hs.append(Harness(
                        f"fit-{cls}-{ct}-{'init' if init else 'set'}-{impl}",
                        training, dict(cls=cls, nc=nc, nm=nm, nf=sf, n=3,
                                       ctype=ct, impl=impl, init=init),
                        overrides=stubs.CLUSTER, cost=40,
                        bound=f"{cls} {ct}: {nc} states, {sf} features, 3 "
                        "samples in 2 sequences, one iteration"))
    return hs
