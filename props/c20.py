"""C20 invalid models and inputs are rejected, valid ones are not."""
import numpy as np
from symx import stubs
from symx.runner import Harness
from props.c13 import (CONTINUOUS, DISCRETE, assign, make, samples, start)
from props.models import TINY, covariances, spd

ASSUMPTIONS = [
    "real arithmetic; probabilities are non-negative; 'sums to one' is "
    "violated by more than 2e-5 (the models allow for rounding) and met "
    "within 1e-9; matrices are asymmetric by a relative 1e-4 or symmetric",
    "samples are rejected for sign and type where they are integers by "
    "contract; totals are checked by fit only",
]
BAD = (ValueError,)
CALLS = ("score", "score_samples", "decode", "predict_proba", "sample",
         "fit")
PROBS = {"s": "startprob_", "t": "transmat_", "e": "emissionprob_",
         "w": "weights_"}


class Spy:
    """counts uses of the emission model."""

    def __init__(self, m):
        self.n = 0
        for h in ("_compute_likelihood", "_compute_log_likelihood",
                  "_compute_subnorm_likelihood",
                  "_compute_subnorm_log_likelihood",
                  "_generate_sample_from_state"):
            f = getattr(m, h, None)
            if f is not None:
                setattr(m, h, self.wrap(f))

    def wrap(self, f):
        def g(*a, **k):
            self.n += 1
            return f(*a, **k)
        return g


def call(w, m, op, X):
    if op == "sample":
        return m.sample(2, random_state=w.random("s"))
    return getattr(m, op)(X)


def model(w, cls, nc, nm, nf, ctype, impl="log", n=2):
    stubs.reset()
    m = make(w, cls, nc, nm, nf, ctype, None, params="", init_params="",
             implementation=impl)
    v = start(w, cls, nc, nm, nf, ctype)
    X = samples(w, cls, n, nf)
    if cls == "PoissonHMM":
        X = X % 2
    return m, v, X


def bad_sum(w, name, shape):
    """non-negative entries, one chosen row of which does not sum to one;
    the other rows all do, or may be anything (also make up for it)."""
    rows = shape[0] if len(shape) > 1 else 1
    r = w.choose(rows)
    valid = rows > 1 and w.pick((True, False))
    out = []
    for i in range(rows):
        if i != r and not valid:
            out.append(list(w.nonnegs(f"{name}any{i}_", shape[-1])))
            continue
        if i != r:
            out.append(list(w.simplex(f"{name}ok{i}_", shape[-1],
                                      list(range(shape[-1])))))
            continue
        x = w.nonnegs(f"{name}bad", shape[-1])
        s = w.num(0)
        for y in x:
            s = s + y
        w.assume(w.or_(w.lt(s, w.num(1 - 2e-5)), w.lt(w.num(1 + 2e-5), s)))
        if not w.symbolic:
            w.generic(abs(s - 1) > 2.1e-5)
        out.append(list(x))
    a = np.array(out, dtype=object)
    return w.asarray(a if len(shape) > 1 else a[0])


def rejected(w, m, op, X, label):
    spy = Spy(m)
    w.raises(f"{label}: {op} raises", BAD, call, w, m, op, X)
    w.true(f"{label}: {op} computes nothing", spy.n == 0)


def sums(w, cls, letter, nc, nm, nf, ctype):
    name = PROBS[letter]
    op = w.pick(CALLS)
    m, v, X = model(w, cls, nc, nm, nf, ctype)
    v[name] = bad_sum(w, "q", np.shape(v[name]))
    assign(w, m, cls, v)
    rejected(w, m, op, X, name)


def wrong_shapes(shape):
    """other shapes whose rows can still sum to one."""
    out = []
    for i in range(len(shape)):
        for d in (-1, 1):
            s = list(shape)
            s[i] += d
            if s[i] > 0:
                out.append(tuple(s))
    out.append((2,) + tuple(shape))
    if len(shape) == 2 and shape[0] > 1:
        out.append(tuple(shape[1:]))
    return out


def shapes(w, cls, name, nc, nm, nf, ctype):
    op = w.pick(("score", "decode", "sample", "fit")
                if not cls.startswith("V") else ("score", "fit"))
    m, v, X = model(w, cls, nc, nm, nf, ctype)
    want = np.shape(v[name])
    got = w.pick(wrong_shapes(want))
    if name == "dof_prior_" or name == "dof_posterior_":
        bad = w.poss("z", *got)
    elif name.startswith("scale"):
        bad = w.poss("z", *got)
    elif name in PROBS.values():
        bad = np.empty(got, dtype=object)
        for ix in np.ndindex(*got[:-1]):
            bad[ix] = np.asarray(w.simplex(
                f"z{got}{ix}:", got[-1],
                list(range(got[-1]))))
        bad = w.asarray(bad)
    else:
        bad = w.poss("z", *got)
    v[name] = bad
    if cls == "GMMHMM" and name == "means_":
        m.n_features = nf
    if cls.startswith("V"):
        m.startprob_ = w.asarray([1. / nc] * nc)
        m.transmat_ = w.asarray([[1. / nc] * nc] * nc)
        if "e" in DISCRETE.get(cls, ""):
            m.emissionprob_ = w.asarray([[1. / nf] * nf] * nc)
        else:
            m._covars_ = covariances(w, ctype, nc, nf, "cv")[0]
    nfs = {"emissionprob_": nf, "lambdas_": nf}.get(name)
    assign(w, m, cls, v)
    if cls == "PoissonHMM" or cls == "MultinomialHMM" or (
            cls in DISCRETE and nfs):
        m.n_features = nf
    if cls in CONTINUOUS:
        m.n_features = nf
    rejected(w, m, op, X, f"{name} of shape {got}")


def valid(w, cls, nc, nm, nf, ctype, impl, near=False):
    """no method rejects a valid model; sums may be off by rounding."""
    op = w.pick(CALLS[:-2] + ("fit",) if cls in CONTINUOUS or
                cls in ("MultinomialHMM", "PoissonHMM") else CALLS)
    m, v, X = model(w, cls, nc, nm, nf, ctype, impl)
    if near:
        for k, name in PROBS.items():
            if name not in v:
                continue
            sh = np.shape(v[name])
            a = w.poss(f"n{k}", *sh)
            for row in np.asarray(a).reshape(-1, sh[-1]):
                s = w.num(0)
                for y in row:
                    s = s + y
                w.assume(w.and_(w.le(w.num(1 - 1e-9), s),
                                w.le(s, w.num(1 + 1e-9))))
            v[name] = a
    assign(w, m, cls, v)
    try:
        call(w, m, op, X)
    except ValueError as e:
        if impl == "scaling" and "underflow" in str(e):
            return
        w.fail(f"{op} rejects a valid model: {e}"[:90])
        return
    w.true(f"{op} accepts", True)


# ------------------------------------------------------------- covariances
def not_pd(w, nf, strict=True):
    """a symmetric matrix that is not positive definite (strict) or has a
    negative eigenvalue."""
    if nf == 1:
        x = w.real("z")
        w.assume(w.le(x, w.num(0)) if strict else w.lt(x, w.num(0)))
        if not w.symbolic:
            w.generic(x < -1e-9)
        return w.asarray([[x]])
    a, b, d = w.real("z0"), w.real("z1"), w.real("z2")
    det = a * d - b * b
    w.assume(w.or_(w.lt(a, w.num(0)), w.lt(d, w.num(0)),
                   w.lt(det, w.num(0))))
    if not w.symbolic:
        w.generic(min(a, d) < -1e-9 or det < -1e-9)
    return w.asarray([[a, b], [b, d]])


def anything(w, name, nf):
    """a symmetric matrix."""
    c = w.reals(name, nf, nf)
    return [[c[min(i, j)][max(i, j)] for j in range(nf)] for i in range(nf)]


def asym(w, nf):
    s = np.array(np.asarray(spd(w, "y", nf)), dtype=object)
    e = w.real("e")
    x = s[0, 1]
    lim = w.num(1e-4) * (w.num(1) + x * x)
    w.assume(w.or_(w.lt(lim, e), w.lt(e, -lim)))
    w.assume(w.and_(w.lt(e, w.num(10)), w.lt(w.num(-10), e)))
    s[0, 1] = x + e
    return w.asarray(s)


def bad_entry(w, shape, strict=True):
    i = w.choose(int(np.prod(shape)))
    # the other entries are valid, or may be anything
    c = w.poss("c", *shape) if w.pick((True, False)) else w.reals("d", *shape)
    c = np.array(np.asarray(c), dtype=object)
    z = w.real("z")
    w.assume(w.le(z, w.num(0)) if strict else w.lt(z, w.num(0)))
    c[np.unravel_index(i, shape)] = z
    return w.asarray(c)


def setter(w, cls, ctype, nc, nf, what):
    mod = w.mod("vhmm" if cls.startswith("V") else "hmm")
    m = getattr(mod, cls)(n_components=nc, covariance_type=ctype)
    m.n_features = nf
    if what == "good":
        c = covariances(w, ctype, nc, nf)[0]
        try:
            m.covars_ = c
        except ValueError:
            w.fail("positive covariances are rejected")
            return
        w.true("accepted", True)
        return
    if what == "shape":
        want = {"spherical": [(nc - 1,), (nc + 1,)],
                "diag": [(nc - 1, nf), (nc + 1, nf), (nc,), (nc, nf, nf)],
                "tied": [(nf, nf + 1), (nf + 1, nf)],
                "full": [(nc - 1, nf, nf), (nc + 1, nf, nf),
                         (nc, nf, nf + 1), (nf, nf)]}[ctype]
        sh = w.pick([x for x in want if min(x) > 0])
        c = np.array(np.asarray(w.poss("c", *sh)), dtype=object)
        if ctype == "full" and len(sh) == 3 and sh[1] == sh[2]:
            c[:] = np.eye(nf)
        if ctype == "full" and len(sh) == 2:
            c[:] = np.eye(nf)
        c = w.asarray(c)
    elif ctype in ("spherical", "diag"):
        c = bad_entry(w, (nc,) if ctype == "spherical" else (nc, nf))
    else:
        bad = not_pd(w, nf) if what == "value" else asym(w, nf)
        if ctype == "tied":
            c = bad
        else:
            k = w.choose(nc)
            rest = w.pick((True, False))
            c = w.asarray(np.array([
                np.asarray(bad if i == k else spd(w, f"s{i}", nf) if rest
                           else anything(w, f"any{i}", nf),
                           dtype=object) for i in range(nc)]))

    def put():
        m.covars_ = c
    w.raises(f"{what} of {ctype} covariances", BAD, put)


def mixture(w, ctype, nc, nm, nf, what):
    """mixture covariances are checked before every use."""
    op = w.pick(("score", "decode", "fit", "sample"))
    m, v, X = model(w, "GMMHMM", nc, nm, nf, ctype)
    sh = np.shape(v["covars_"])
    if what == "shape":
        sh = w.pick([s for s in wrong_shapes(sh)])
        c = w.poss("c", *sh)
    elif ctype in ("spherical", "diag"):
        c = bad_entry(w, sh, strict=False)
    else:
        bad = not_pd(w, nf, strict=False) if what == "value" else asym(w, nf)
        lead = sh[:-2]
        k = w.choose(int(np.prod(lead)))
        rest = w.pick((True, False))
        c = np.empty(sh, dtype=object)
        for i, ix in enumerate(np.ndindex(*lead)):
            c[ix] = np.asarray(bad if i == k else spd(
                w, f"s{i}", nf) if rest else anything(w, f"any{i}", nf),
                dtype=object)
        c = w.asarray(c)
    v["covars_"] = c
    assign(w, m, "GMMHMM", v)
    rejected(w, m, op, X, f"{what} of {ctype} covariances")


# ----------------------------------------------------------------- samples
def dims(w, cls, ctype, nc, nm, nf, xf):
    op = w.pick(("score", "score_samples", "decode", "predict_proba"))
    impl = w.pick(("log", "scaling"))
    m, v, X = model(w, cls, nc, nm, nf, ctype, impl)
    assign(w, m, cls, v)
    if cls in CONTINUOUS:
        X = w.reals("xx", 2, xf)
    else:
        X = np.array([[2, 0, 1][:xf], [0, 1, 1][:xf]])
    w.raises(f"{op} of samples with {xf} features", BAD, call, w, m, op, X)


def fit_dims(w, cls, ctype, nc, nm, nf, xf):
    m, v, X = model(w, cls, nc, nm, nf, ctype)
    assign(w, m, cls, v)
    m.n_features = nf
    X = w.reals("xx", 2, xf) if cls in CONTINUOUS else \
        np.ones((2, xf), dtype=int)
    rejected(w, m, "fit", X, f"samples with {xf} features")


def symbols(w, cls, nc, nf, n, dtype):
    """categorical symbols: any grid value outside 0..nf-1, or floats."""
    m, v, X = model(w, cls, nc, 1, nf, None)
    if cls.startswith("V"):
        m.startprob_ = w.asarray([1. / nc] * nc)
        m.transmat_ = w.asarray([[1. / nc] * nc] * nc)
        m.emissionprob_ = w.asarray([[1. / nf] * nf] * nc)
    assign(w, m, cls, v)
    X = np.array([[w.choose(nf + 4) - 2] for _ in range(n)])
    ok = X.min() >= 0 and X.max() < nf
    if dtype == "float":
        X = X.astype(float)
        rejected(w, m, "fit", X, "float symbols")
        return
    for op in ("fit", "score", "decode"):
        if not ok:
            w.raises(f"{op} with a symbol out of range",
                     BAD if op == "fit" else (ValueError, IndexError),
                     call, w, m, op, X)
            continue
        try:
            call(w, m, op, X)
        except ValueError as e:
            w.fail(f"{op} rejects valid symbols: {e}"[:90])
            return
        w.true(f"{op} accepts", True)


def counts(w, nc, nf, n, trials, dtype):
    """multinomial totals, signs and types in fit."""
    cls = "MultinomialHMM"
    m, v, X = model(w, cls, nc, 1, nf, None)
    assign(w, m, cls, v)
    X = np.array([[w.pick((0, 1, 2) if i else (-1, 0, 1, 3))
                   for _ in range(nf)] for i in range(n)])
    m.n_trials = trials
    good = X.min() >= 0 and (X.sum(axis=1) == (
        trials if trials is not None else X.sum(axis=1))).all()
    if dtype == "float":
        rejected(w, m, "fit", X.astype(float), "float counts")
        return
    if not good:
        rejected(w, m, "fit", X, "counts")
        return
    try:
        m.fit(X)
    except ValueError as e:
        w.fail(f"fit rejects valid counts: {e}"[:90])
        return
    w.true("fit accepts", True)


def no_trials(w, nc, nf):
    m, v, X = model(w, "MultinomialHMM", nc, 1, nf, None)
    assign(w, m, "MultinomialHMM", v)
    m.n_trials = None
    op = w.pick(CALLS[:-1])
    rejected(w, m, op, X, "n_trials unset")


def harnesses(tier):
    q = tier == "quick"
    hs = []

    def add(name, fn, params, **k):
        hs.append(Harness(name, fn, params, overrides=stubs.CLUSTER,
                          tries=30, **k))
    allc = {**DISCRETE, **CONTINUOUS}
    for cls, letters in allc.items():
        if cls.startswith("V"):
            continue
        ctypes = ("spherical", "diag", "tied", "full") if cls in \
            CONTINUOUS else (None,)
        for ct in ctypes:
            if ct in ("spherical", "tied", "full") and q and not (
                    ct == "full" and cls == "GMMHMM"):
                continue
            sf = 1 if ct == "full" else 2
            for k in letters:
                if k not in PROBS:
                    continue
                for nc in (2,) if q else (2, 3):
                    add(f"sum-{cls}-{PROBS[k]}-{nc}"
                        + (f"-{ct}" if ct else ""), sums,
                        dict(cls=cls, letter=k, nc=nc, nm=2, nf=sf,
                             ctype=ct), cost=4,
                        bound=f"{nc} states, 2 features, one row off by more "
                        "than 2e-5")
            names = [PROBS[k] for k in letters if k in PROBS]
            if cls == "GMMHMM":
                names.append("means_")
            if cls == "PoissonHMM":
                names.append("lambdas_")
            for name in names:
                for nc in (2,) if q else (1, 2, 3):
                    add(f"shape-{cls}-{name}-{nc}" + (f"-{ct}" if ct else ""),
                        shapes, dict(cls=cls, name=name, nc=nc, nm=2, nf=sf,
                                     ctype=ct), cost=3,
                        bound=f"{nc} states, one dimension off by one or "
                        "added or missing")
            for near in (False, True):
                for impl in ("log", "scaling"):
                    add(f"valid-{cls}-{impl}" + (f"-{ct}" if ct else "")
                        + ("-near" if near else ""), valid,
                        dict(cls=cls, nc=2, nm=2, nf=sf, ctype=ct, impl=impl,
                             near=near), cost=6,
                        bound="2 states, 2 samples; sums within 1e-9 of one"
                        if near else "2 states, 2 samples")
    vnames = {"VariationalCategoricalHMM":
              ["startprob", "transmat", "emissionprob"],
              "VariationalGaussianHMM":
              ["startprob", "transmat", "means", "beta", "dof", "scale"]}
    for cls, ns in vnames.items():
        for ct in (None,) if cls in DISCRETE else \
                ("spherical", "diag", "tied", "full"):
            for n in ns:
                if ct == "tied" and n == "dof":
                    continue
                for z in ("prior", "posterior"):
                    add(f"shape-{cls}-{n}-{z}" + (f"-{ct}" if ct else ""),
                        shapes, dict(cls=cls, name=f"{n}_{z}_", nc=2, nm=1,
                                     nf=2, ctype=ct), cost=3,
                        bound="2 states, one dimension off by one or added "
                        "or missing")
    for cls in ("GaussianHMM", "VariationalGaussianHMM"):
        for ct in ("spherical", "diag", "tied", "full"):
            for nc, nf in ((2, 2),) if q else ((1, 1), (2, 1), (2, 2),
                                               (3, 2)):
                for what in ("good", "shape", "value", "asym"):
                    if what == "asym" and (ct in ("spherical", "diag")
                                           or nf < 2):
                        continue
                    add(f"covars-{cls}-{ct}-{what}-{nc}x{nf}", setter,
                        dict(cls=cls, ctype=ct, nc=nc, nf=nf, what=what),
                        cost=2, kernel=None,
                        bound=f"{nc} states, {nf} features")
                if ct == "full" and nc == 2 and nf == 2 and q:
                    add(f"covars-{cls}-{ct}-value-3x1", setter,
                        dict(cls=cls, ctype=ct, nc=3, nf=1, what="value"),
                        kernel=None, bound="3 states, 1 feature")
    for ct in ("spherical", "diag", "tied", "full"):
        for what in ("shape", "value", "asym"):
            if what == "asym" and ct in ("spherical", "diag"):
                continue
            for nc, nm, nf in ((1, 2, 2), (2, 2, 1)) if q else (
                    (1, 2, 2), (2, 2, 1), (2, 2, 2), (1, 3, 1)):
                if what == "asym" and nf < 2:
                    continue
                add(f"mixcovars-{ct}-{what}-{nc}x{nm}x{nf}", mixture,
                    dict(ctype=ct, nc=nc, nm=nm, nf=nf, what=what), cost=4,
                    bound=f"{nc} states, {nm} components, {nf} features")
    for cls in ("GaussianHMM", "GMMHMM", "PoissonHMM"):
        for ct in ("spherical", "diag", "tied", "full") if cls in \
                CONTINUOUS else (None,):
            for nf, xf in ((2, 1), (1, 2)) + (() if q else (
                    (2, 3), (1, 3), (3, 1))):
                add(f"dims-{cls}-{nf}-{xf}" + (f"-{ct}" if ct else ""), dims,
                    dict(cls=cls, ctype=ct, nc=2 if ct != "full" else 1, nm=2,
                         nf=nf, xf=xf), cost=2, bound=f"models of {nf}, samples of {xf} features")
    for cls in ("GaussianHMM", "GMMHMM", "PoissonHMM", "MultinomialHMM",
                "VariationalGaussianHMM"):
        for nf, xf in ((2, 1), (2, 3)):
            add(f"fitdims-{cls}-{nf}-{xf}", fit_dims,
                dict(cls=cls, ctype="diag" if cls in CONTINUOUS else None,
                     nc=2, nm=2, nf=nf, xf=xf),
                bound=f"models of {nf}, samples of {xf} features")
    for cls in ("CategoricalHMM", "VariationalCategoricalHMM"):
        for dt in ("int", "float"):
            add(f"symbols-{cls}-{dt}", symbols,
                dict(cls=cls, nc=2, nf=2, n=2, dtype=dt), cost=3,
                bound="2 samples, symbols -2..3 for an alphabet of 2")
    for tr in (2, None, [1, 2]):
        for dt in ("int", "float"):
            if tr is not None and not isinstance(tr, int):
                tr = np.array(tr)
            add(f"counts-{'-'.join(map(str, np.ravel([tr])))}-{dt}", counts,
                dict(nc=2, nf=2, n=2, trials=tr, dtype=dt), cost=3,
                bound="2 samples of 2 counts in -1..3 and 0..2")
    add("no-trials", no_trials, dict(nc=2, nf=2), bound="2 states")
    return hs
