"""models with abstract emissions: the observation at row r has arbitrary
(symbolic) probability b[r, i] in state i."""
import numpy as np
from symx.runner import Harness
from props.spec import chain  # noqa: F401


def abstract_class(w, base="BaseHMM", kind="both"):
    B = getattr(w.mod("base"), base)

    class Abstract(B):
        frames = None

        def _rows(self, X):
            return [int(r) for r in np.asarray(X)[:, 0]]

        def _get_n_fit_scalars_per_param(self):
            return None

    def lin(self, X):
        return self.frames[self._rows(X)]

    def log(self, X):
        return w.log(self.frames[self._rows(X)])

    if base == "BaseHMM":
        if kind in ("both", "lin"):
            Abstract._compute_likelihood = lin
        if kind in ("both", "log"):
            Abstract._compute_log_likelihood = log
    else:
        Abstract._compute_likelihood = lin
        Abstract._compute_log_likelihood = log
        if kind in ("both", "lin"):
            Abstract._compute_subnorm_likelihood = lin
        if kind in ("both", "log"):
            Abstract._compute_subnorm_log_likelihood = log
    return Abstract


def abstract_model(w, nc, n, kind="both", pattern=("full",), frames="pos",
                   spattern=None, normal=True, **kw):
    """(model, startprob, transmat, frames, X)."""
    if spattern is None:
        spattern = ("full",)
    ss = w.pick(spattern)
    ssup = list(range(nc)) if ss == "full" or nc == 1 else list(range(1, nc))
    sp = w.simplex("p", nc, ssup, normal)
    tm = w.stochastic("a", nc, support=w.pattern(nc, kinds=pattern),
                      normal=normal)
    fp = (w.poss if frames == "pos" else w.nonnegs)("b", n, nc)
    m = abstract_class(w, kind=kind)(n_components=nc, **kw)
    m.startprob_ = sp
    m.transmat_ = tm
    m.frames = fp
    X = np.arange(n)[:, None]
    return m, sp, tm, fp, X


# ------------------------------------------------------------ real emissions
TINY = 2.3e-308


def spd(w, name, nf):
    """an arbitrary symmetric positive-definite matrix, as L L^T."""
    L = np.empty((nf, nf), dtype=object)
    for i in range(nf):
        for j in range(nf):
            L[i, j] = (w.num(0) if j > i else
                       w.pos(f"{name}d{i}", sampler=lambda r, s:
                             r.uniform(.3, 1.5)) if i == j else
                       w.real(f"{name}l{i}{j}", sampler=lambda r, s:
                              r.uniform(-1, 1)))
    L = w.asarray(L)
    return L @ L.T


def covariances(w, ctype, nc, nf, name="c"):
    """(value to assign to covars_, list of full matrices per state)."""
    if ctype == "spherical":
        c = w.poss(name, nc)
        return c, [[[c[k] if i == j else w.num(0) for j in range(nf)]
                    for i in range(nf)] for k in range(nc)]
    if ctype == "diag":
        c = w.poss(name, nc, nf)
        return c, [[[c[k][i] if i == j else w.num(0) for j in range(nf)]
                    for i in range(nf)] for k in range(nc)]
    if ctype == "tied":
        c = spd(w, name, nf)
        return c, [c] * nc
    c = [spd(w, f"{name}{k}", nf) for k in range(nc)]
    return w.asarray(np.array([np.asarray(x, dtype=object) for x in c])), c


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    s = None
    for j in range(n):
        t = m[0][j] * det([[m[i][k] for k in range(n) if k != j]
                           for i in range(1, n)])
        t = t if j % 2 == 0 else -t
        s = t if s is None else s + t
    return s


def adj(m):
    n = len(m)
    if n == 1:
        return [[1]]

    def cof(i, j):
        d = det([[m[a][b] for b in range(n) if b != j]
                 for a in range(n) if a != i])
        return d if (i + j) % 2 == 0 else -d
    return [[cof(j, i) for j in range(n)] for i in range(n)]


def log_mvn(w, x, mu, cov):
    """textbook log density of N(mu, cov) at x."""
    n = len(x)
    d, a = det(cov), adj(cov)
    q = None
    for i in range(n):
        for j in range(n):
            t = (x[i] - mu[i]) * a[i][j] * (x[j] - mu[j])
            q = t if q is None else q + t
    return (w.num(n) * w.log(w.num(2) * w.pi) + w.log(d) + q / d) * -.5


def larger(hs, name, fn, keep, bound, **kw):
    """a harness at a size where only the variables `keep` are arbitrary."""
    kw.setdefault("cost", 15)
    hs.append(Harness("larger-" + name, fn, keep=keep, bound=bound +
                      f"; arbitrary: {keep}, everything else fixed", **kw))


def set_chain(w, m, nc, normal=True, fixed=False):
    if fixed and w.keep is None:
        r = [[1.], [.25, .75], [.5, .25, .25], [.25] * 4][nc - 1]
        m.startprob_ = w.asarray(r)
        m.transmat_ = w.asarray([r[i:] + r[:i] for i in range(nc)])
        return m.startprob_, m.transmat_
    m.startprob_ = w.simplex("p", nc, list(range(nc)), normal)
    m.transmat_ = w.stochastic("a", nc, support=[list(range(nc))] * nc,
                               normal=normal)
    return m.startprob_, m.transmat_


def abstracted(w, cls, frames, hook="_compute_log_likelihood"):
    """cls with the given arbitrary frame probabilities as emissions; the
    first feature of each sample is unused by them (rows are counted)."""
    class Abstract(cls):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self._row = 0

        @classmethod
        def _get_param_names(c):
            return cls._get_param_names()

    def log(self, X):
        n = len(X)
        r = frames[self._row:self._row + n]
        self._row = (self._row + n) % len(frames)
        return w.log(r)
    setattr(Abstract, hook, log)
    return Abstract


def gaussian(w, nc, nf, ctype, frames=None, fixed=False, **kw):
    """(model, startprob, transmat, means, per-state covariance matrices)"""
    cls = w.mod("hmm").GaussianHMM
    if frames is not None:
        cls = abstracted(w, cls, frames)
    m = cls(n_components=nc, covariance_type=ctype, **kw)
    sp, tm = set_chain(w, m, nc, fixed=fixed)
    m.means_ = mu = w.reals("m", nc, nf)
    cv, full = covariances(w, ctype, nc, nf)
    m.n_features = nf
    if ctype in ("spherical", "diag"):
        for x in np.ravel(cv):
            w.assume(w.lt(w.num(TINY), x))
    m.covars_ = cv
    return m, sp, tm, mu, full


# ------------------------------------------------- larger, mostly fixed models
def large_model(w, nc, n, free=3, kind="both", zeros=True, **kw):
    """(model, startprob, transmat, frames, X): start and transition
    probabilities and most frame probabilities are fixed rationals, `free`
    frame probabilities spread over the sequence are arbitrary positive."""
    q = [7, 3, 11, 5, 13, 19, 17]
    e = [29, 43, 31, 59, 37, 67, 41, 73, 47, 61, 53]

    def row(k, hole=None):
        r = [0 if i == hole else q[(k + 2 * i) % 7] for i in range(nc)]
        return [w.num(x) / sum(r) for x in r]
    sp = w.asarray(np.array(row(1), dtype=object))
    tm = w.asarray(np.array(
        [row(3 * i, (i + 1) % nc if zeros and nc > 2 and i % 2 == 0 else None)
         for i in range(nc)], dtype=object))
    fp = np.empty((n, nc), dtype=object)
    for t in range(n):
        for i in range(nc):
            fp[t, i] = w.num(e[(t * 3 + 5 * i * i + t // 5) % 11]) / 64
    for k in range(free):
        t = (k * (n - 1)) // max(free - 1, 1)
        fp[t, (k + 1) % nc] = w.pos(f"b{t}")
    fp = w.asarray(fp)
    m = abstract_class(w, kind=kind)(n_components=nc, **kw)
    m.startprob_, m.transmat_, m.frames = sp, tm, fp
    return m, sp, tm, fp, np.arange(n)[:, None]
