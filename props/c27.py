"""C27 initialisation."""
import itertools
from types import SimpleNamespace

import numpy as np
from symx import npshim as N
from symx.runner import Harness
from symx.poly import Unsupported

ASSUMPTIONS = [
    "real arithmetic: rounding is not modelled",
    "k-means is replaced by its contract: any labelling with no empty "
    "cluster, any centres (hence at least as many distinct samples as states "
    "and, for the mixtures, as the code asks of it)",
    "the random generator is replaced by arbitrary values of each "
    "distribution's support (Dirichlet draws inside the simplex)",
]


class Clustering:
    """KMeans of one harness run, on the world."""

    def __init__(self, w):
        self.w, self.log = w, []
        outer = self

        class KMeans:
            def __init__(self, n_clusters=8, *, random_state=None, **kw):
                self.n_clusters, self.random_state = n_clusters, random_state

            def fit(self, X, y=None, sample_weight=None):
                X = self.data = np.asarray(X)
                if len(X) < self.n_clusters:
                    raise ValueError("fewer samples than clusters")
                outer.log.append(self)
                self._labels = None
                self.cluster_centers_ = outer.w.reals(
                    f"km{len(outer.log)}", self.n_clusters, X.shape[1])
                return self

            @property
            def labels_(self):
                if self._labels is None:
                    n, k = len(self.data), self.n_clusters
                    onto = [m for m in itertools.product(range(k), repeat=n)
                            if len(set(m)) == k]
                    self._labels = np.array(onto[outer.w.choose(len(onto))])
                return self._labels

            def predict(self, X):
                if len(X) != len(self.data):
                    raise Unsupported("KMeans.predict on new data")
                return self.labels_

            def fit_predict(self, X, y=None, sample_weight=None):
                return self.fit(X).labels_

        self.KMeans = KMeans

    def of(self, X):
        """the clusterings of these samples."""
        X = np.asarray(X)
        return [k for k in self.log if k.data.shape == X.shape and all(
            a is b or a == b for a, b in zip(k.data.ravel(), X.ravel()))]


HERE = [None]


class _Current:
    def __getattr__(self, k):
        return getattr(HERE[0].KMeans, k)

    def __call__(self, *a, **k):
        return HERE[0].KMeans(*a, **k)


CLUSTER = {"cluster": {"KMeans": _Current()}}


def initialised(w, cls, X, lengths=None, **kw):
    """(model after initialisation and check, clustering)."""
    mod = w.mod("vhmm" if cls.startswith("V") else "hmm")
    c = HERE[0] = Clustering(w)
    rs = kw.pop("random_state", None) or w.random("r", zero=False)
    m = getattr(mod, cls)(random_state=rs, n_iter=0, **kw)
    before = np.random.get_state()[1].tolist(), np.random.get_state()[2]
    old = getattr(mod, "cluster", None)
    if not w.symbolic and old is not None:
        mod.cluster = SimpleNamespace(KMeans=c.KMeans)
    try:
        m.fit(X, lengths)
    finally:
        if not w.symbolic and old is not None:
            mod.cluster = old
    after = np.random.get_state()[1].tolist(), np.random.get_state()[2]
    w.true("the global generator is not used", before == after)
    for k in c.log:
        w.true("the clustering uses the model's generator",
               k.random_state is rs)
    return m, c, rs


def distributions(w, name, p, shape, total=1):
    p = np.asarray(p)
    w.true(f"{name} has its shape", p.shape == shape)
    for row in p.reshape(-1, shape[-1]):
        for x in row:
            w.true(f"{name} is non-negative", w.le(w.num(0), x))
        # the doubles 1/n do not sum to one exactly
        gap = sum(row[1:], row[0]) - total
        w.true(f"{name} sums to {total}", w.and_(
            w.le(gap, w.num(1e-12)), w.le(w.num(-1e-12), gap)))


def chain(w, m, nc):
    distributions(w, "startprob_", m.startprob_, (nc,))
    distributions(w, "transmat_", m.transmat_, (nc, nc))


def cloud(w, n, nf):
    """any n samples, by their mean and orthogonal contrasts (a bijection
    over the reals): the determinant of the scatter is a sum of squares of
    two terms."""
    u = w.reals("x", n, nf)
    c = np.asarray(u)
    X = np.empty((n, nf), dtype=object)
    for i in range(n):
        for j in range(nf):
            x = c[0, j]
            for k in range(1, n):
                h = 1 if i < k else -k if i == k else 0
                if h:
                    x = x + h * c[k, j]
            X[i, j] = x
    return w.asarray(X)


def scatter(X, floor):
    """sample covariance plus the floor."""
    X = np.asarray(X)
    n, nf = X.shape
    mean = [sum(X[1:, j], X[0, j]) / n for j in range(nf)]
    c = np.empty((nf, nf), dtype=object)
    for i in range(nf):
        for j in range(nf):
            t = [(X[k, i] - mean[i]) * (X[k, j] - mean[j]) for k in range(n)]
            c[i, j] = sum(t[1:], t[0]) / (n - 1) + (floor if i == j else 0)
    return c


def discrete(w, cls, nc, nf, **_):
    if cls == "MultinomialHMM":
        X = np.array([[2, 0], [1, 1], [0, 2]])[:, :nf]
        if nf == 3:
            X = np.array([[2, 0, 1], [1, 1, 1], [0, 2, 1]])
    else:
        X = np.array([[nf - 1], [0], [0]])
    kw = {}
    if cls == "MultinomialHMM":
        kw["n_trials"] = int(X[0].sum())
    m, _c, rs = initialised(w, cls, X, n_components=nc, **kw)
    chain(w, m, nc)
    distributions(w, "emissionprob_", m.emissionprob_, (nc, nf))
    w.true("drawn at random", len(rs.calls) > 0)


def poisson(w, nc, nf, n, same=False, **_):
    X = w.nonnegs("x", n, nf)
    if same:
        X = w.arr((n, nf), lambda i, j: X[0, 0])
    m, _c, rs = initialised(w, "PoissonHMM", X, n_components=nc)
    chain(w, m, nc)
    l = np.asarray(m.lambdas_)
    w.true("lambdas_ has its shape", l.shape == (nc, nf))
    for x in l.ravel():
        w.true("rates are non-negative", w.le(w.num(0), x))
    cells = list(np.asarray(X).ravel())
    mean = sum(cells[1:], cells[0]) / len(cells)
    var = sum(((x - mean) * (x - mean) for x in cells[1:]),
              (cells[0] - mean) * (cells[0] - mean)) / len(cells)
    g = [c for c in rs.calls if c[0] == "gamma"]
    if g:
        shape, scale = g[0][1:3]
        w.eq("the rates' expectation is the sample mean", shape * scale, mean)
        w.eq("the rates' variance is the sample variance",
             shape * scale * scale, var)
    else:
        for x in l.ravel():
            w.eq("constant counts give their rate", x, mean)


def gaussian(w, ctype, nc, nf, n, floor, **_):
    X = cloud(w, n, nf)
    lo = w.pos("floor") if floor else 1e-3
    kw = dict(min_covar=lo) if floor else {}
    m, c, rs = initialised(w, "GaussianHMM", X, n_components=nc,
                           covariance_type=ctype, **kw)
    chain(w, m, nc)
    fits = c.of(X)
    w.true("the samples are clustered", len(fits) > 0)
    if not fits:
        return
    w.true("one cluster per state", fits[-1].n_clusters == nc)
    w.eq("means are the cluster centres", m.means_, fits[-1].cluster_centers_)
    cv = scatter(X, lo)
    full = np.asarray(m.covars_)
    w.true("covars_ has its shape", full.shape == (nc, nf, nf))
    w.eq("covariances are the sample covariance", full,
         w.asarray(np.stack([shaped(cv, ctype)] * nc)))


def shaped(cv, ctype):
    """the matrix of a state that stands for cv."""
    nf = len(cv)
    if ctype in ("full", "tied"):
        return cv
    r = np.zeros((nf, nf), dtype=object)
    s = sum(cv.ravel()[1:], cv.ravel()[0]) / nf**2
    for i in range(nf):
        r[i, i] = cv[i, i] if ctype == "diag" else s
    return r


def mixture(w, ctype, nc, nm, nf, n, **_):
    X = cloud(w, n, nf)
    lo = w.pos("floor")
    m, c, rs = initialised(w, "GMMHMM", X, n_components=nc, n_mix=nm,
                           covariance_type=ctype, min_covar=lo)
    chain(w, m, nc)
    distributions(w, "weights_", m.weights_, (nc, nm))
    cv = scatter(X, lo)
    X_ = np.asarray(X)
    main = [k for k in c.of(X) if k.n_clusters == nc]
    w.true("the samples are clustered", len(main) > 0)
    if not main:
        return
    means = np.asarray(m.means_)
    w.true("means_ has its shape", means.shape == (nc, nm, nf))
    labels = main[0].labels_
    normals = [x for x in rs.calls if x[0] == "multivariate_normal"]
    centre = np.asarray(main[0].cluster_centers_)
    centre = [sum(centre[1:, j], centre[0, j]) / nc for j in range(nf)]
    drawn = 0
    for s in range(nc):
        mine = X_[labels == s]
        if len(mine) >= nm:
            k = [k for k in c.of(mine) if k.n_clusters == nm
                 and k is not main[0]]
            w.true("each state's samples are clustered", len(k) > 0)
            if not k:
                continue
            w.true("means are the state's cluster centres", w.or_(*[
                w.and_(*[w.equal(a, b) for a, b in zip(
                    means[s].ravel(),
                    np.asarray(x.cluster_centers_).ravel())]) for x in k]))
        else:
            w.true("means of a small cluster are drawn",
                   drawn < len(normals))
            if drawn < len(normals):
                w.eq("drawn around the centre", normals[drawn][1],
                     w.asarray(np.array(centre)))
                w.eq("drawn with the sample covariance",
                     normals[drawn][2], w.asarray(cv))
            drawn += 1
    got = np.asarray(m.covars_)
    if ctype == "tied":
        want = np.stack([cv] * nc)
    elif ctype == "full":
        want = np.stack([np.stack([cv] * nm)] * nc)
    elif ctype == "diag":
        want = np.stack([np.stack([np.diag(cv)] * nm)] * nc)
    else:
        s = sum(cv.ravel()[1:], cv.ravel()[0]) / nf**2
        want = np.full((nc, nm), s, dtype=object)
    w.true("covars_ has its shape", got.shape == want.shape)
    w.eq("covariances are the sample covariance", m.covars_, w.asarray(want))


def vchain(w, m, nc, n, nseq, prior):
    p0, p1 = prior
    for name, shape, want in (
            ("startprob", (nc,), p0), ("transmat", (nc, nc), p1)):
        p = np.asarray(getattr(m, name + "_prior_"))
        w.true(f"{name}_prior_ has its shape", p.shape == shape)
        if p.shape == shape:
            w.eq(f"{name}_prior_", w.asarray(p), w.asarray(
                np.broadcast_to(np.array(want, dtype=object), shape)))
    distributions(w, "startprob_posterior_", m.startprob_posterior_, (nc,),
                  nseq)
    distributions(w, "transmat_posterior_", w.asarray(
        np.asarray(m.transmat_posterior_) * nc), (nc, nc), n)


def vcategorical(w, nc, nf, lengths, prior, **_):
    n = sum(lengths)
    X = np.array([[nf - 1], [0], [0], [nf - 1]])[:n]
    kw, want = {}, [1 / nc, 1 / nc]
    we = 1 / nf
    if prior:
        want = [w.pos("sp"), w.poss("tp", nc, nc) if prior == "array"
                else w.pos("tp")]
        we = w.pos("ep")
        kw = dict(startprob_prior=want[0], transmat_prior=want[1],
                  emissionprob_prior=we)
    m, _c, rs = initialised(w, "VariationalCategoricalHMM", X,
                            np.array(lengths), n_components=nc, **kw)
    vchain(w, m, nc, n, len(lengths), want)
    w.eq("emissionprob_prior_", m.emissionprob_prior_, w.asarray(
        np.full((nc, nf), we, dtype=object)))
    distributions(w, "emissionprob_posterior_", w.asarray(
        np.asarray(m.emissionprob_posterior_) * nc), (nc, nf), n)


def vgaussian(w, ctype, nc, nf, lengths, prior, **_):
    n = sum(lengths)
    X = cloud(w, n, nf)
    kw, want = {}, [1 / nc, 1 / nc]
    shapes = {"full": (nc, nf, nf), "tied": (nf, nf), "diag": (nc, nf),
              "spherical": (nc,)}[ctype]
    tiny = np.zeros(shapes, dtype=object)
    for ix in np.ndindex(*shapes):
        if ctype in ("diag", "spherical") or ix[-1] == ix[-2]:
            tiny[ix] = 1e-3
    X_ = np.asarray(X)
    mp = np.array([[sum(X_[1:, j], X_[0, j]) / n for j in range(nf)]] * nc)
    bp, dp, sp = 1., nf, w.asarray(tiny)
    if prior:
        want = [w.pos("sp"), w.pos("tp")]
        mp, bp = w.reals("mp", nc, nf), w.poss("bp", nc)
        dp = 3.5 if ctype == "tied" else w.poss("dp", nc)
        sp = w.asarray(tiny * w.pos("scale"))
        kw = dict(startprob_prior=want[0], transmat_prior=want[1],
                  means_prior=mp, beta_prior=bp, dof_prior=dp,
                  scale_prior=sp)
    m, c, rs = initialised(w, "VariationalGaussianHMM", X,
                           np.array(lengths), n_components=nc,
                           covariance_type=ctype, **kw)
    vchain(w, m, nc, n, len(lengths), want)
    fits = c.of(X)
    w.true("the samples are clustered", len(fits) > 0)
    if not fits:
        return
    k = fits[-1]
    w.true("one cluster per state", k.n_clusters == nc)
    count = [sum(1 for x in k.labels_ if x == s) for s in range(nc)]
    w.eq("means are the cluster centres", m.means_posterior_,
         k.cluster_centers_)
    w.eq("beta_posterior_ counts the clusters", m.beta_posterior_,
         np.array(count))
    w.eq("means_prior_", m.means_prior_, w.asarray(np.array(mp)))
    w.eq("beta_prior_", m.beta_prior_, w.asarray(np.broadcast_to(
        np.array(bp, dtype=object), (nc,))))
    cv = scatter(X, 1e-3)
    if ctype == "tied":
        w.eq("dof_posterior_ counts the samples", m.dof_posterior_, n)
        w.eq("dof_prior_", m.dof_prior_, dp)
        scale = cv * n
    else:
        w.eq("dof_posterior_ counts the clusters", m.dof_posterior_,
             np.array(count))
        w.eq("dof_prior_", m.dof_prior_, w.asarray(np.broadcast_to(
            np.array(dp, dtype=object), (nc,))))
        scale = np.stack([shaped(cv, ctype) * z for z in count])
        if ctype == "diag":
            scale = np.stack([np.diag(x) for x in scale])
        if ctype == "spherical":
            scale = scale[:, 0, 0]
    w.eq("scale_prior_", m.scale_prior_, sp)
    w.eq("scale_posterior_ is the covariance times the count",
         m.scale_posterior_, w.asarray(scale))


def harnesses(tier):
    hs = []
    q = tier == "quick"
    ov = CLUSTER

    def add(name, fn, bound, cost=20, **p):
        hs.append(Harness(name, fn, p, overrides=ov, cost=cost, bound=bound))
    for cls in ("CategoricalHMM", "MultinomialHMM"):
        for nc, nf in ((1, 2), (2, 2), (3, 3)) if q else (
                (1, 2), (2, 2), (3, 3), (4, 3), (2, 4)):
            if cls == "MultinomialHMM" and nf > 3:
                continue
            add(f"{cls}-{nc}-{nf}", discrete,
                f"{cls}: {nc} states, {nf} symbols", cls=cls, nc=nc, nf=nf)
    for nc, nf, n in ((1, 1, 2), (2, 1, 3), (2, 2, 2)) if q else (
            (1, 1, 2), (2, 1, 3), (2, 2, 2), (3, 2, 3), (2, 1, 5)):
        for same in (False, True):
            add(f"PoissonHMM-{nc}-{nf}-{n}" + "-same" * same, poisson,
                f"PoissonHMM: {nc} states, {nf} features, {n} samples" +
                ", all counts equal" * same, nc=nc, nf=nf, n=n, same=same)
    for ct in ("spherical", "diag", "tied", "full"):
        for nc, nf, n in ((1, 1, 2), (2, 1, 3), (2, 2, 3)) if q else (
                (1, 1, 2), (2, 1, 3), (2, 2, 3), (3, 2, 4), (2, 3, 4)):
            if nf == 3 and ct in ("tied", "full"):
                continue
            for fl in (False, True):
                add(f"GaussianHMM-{ct}-{nc}-{nf}-{n}" + "-floor" * fl,
                    gaussian, f"GaussianHMM {ct}: {nc} states, {nf} "
                    f"features, {n} samples, " +
                    ("any" if fl else "default") + " min_covar",
                    ctype=ct, nc=nc, nf=nf, n=n, floor=fl)
        for nc, nm, nf, n in ((1, 2, 1, 2), (2, 2, 1, 3), (2, 1, 2, 3)) \
                if q else ((1, 2, 1, 2), (2, 2, 1, 3), (2, 1, 2, 3),
                           (2, 2, 2, 4), (3, 2, 1, 4), (2, 3, 1, 4)):
            add(f"GMMHMM-{ct}-{nc}-{nm}-{nf}-{n}", mixture,
                f"GMMHMM {ct}: {nc} states, {nm} components, {nf} features, "
                f"{n} samples, every labelling, any min_covar", cost=60,
                ctype=ct, nc=nc, nm=nm, nf=nf, n=n)
        for nc, nf, ls in ((1, 1, [2]), (2, 1, [2, 1]), (2, 2, [1, 2])) \
                if q else ((1, 1, [2]), (2, 1, [2, 1]), (2, 2, [1, 2]),
                           (2, 3, [4]), (3, 1, [2, 2])):
            if nf == 3 and ct in ("tied", "full"):
                continue
            for pr in (False, True):
                add(f"VariationalGaussianHMM-{ct}-{nc}-{nf}-"
                    f"{'+'.join(map(str, ls))}" + "-prior" * pr, vgaussian,
                    f"VariationalGaussianHMM {ct}: {nc} states, {nf} "
                    f"features, lengths {ls}, " +
                    ("given" if pr else "default") + " priors", cost=40,
                    ctype=ct, nc=nc, nf=nf, lengths=ls, prior=pr)
    for nc, nf, ls in ((1, 2, [2]), (2, 2, [2, 1]), (3, 2, [3])) if q else (
            (1, 2, [2]), (2, 2, [2, 1]), (3, 2, [3]), (2, 4, [1, 1, 2])):
        for pr in ("", "scalar", "array"):
            add(f"VariationalCategoricalHMM-{nc}-{nf}-"
                f"{'+'.join(map(str, ls))}-{pr or 'default'}", vcategorical,
                f"VariationalCategoricalHMM: {nc} states, {nf} symbols, "
                f"lengths {ls}, {pr or 'default'} priors",
                nc=nc, nf=nf, lengths=ls, prior=pr)
    return hs


_ = N
