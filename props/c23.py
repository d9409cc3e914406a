"""C23 extreme values."""
import math
from fractions import Fraction
import numpy as np
from symx import stubs
from symx.runner import Harness
from props.models import TINY, abstract_class
from props.spec import pairwise, posterior, summed, total

ASSUMPTIONS = [
    "emission likelihoods have no bound: every number which the code computes "
    "in linear space must be representable for all of them, which is the "
    "obligation at each exp (at most 1e200) and log (at least 1e-200) that "
    "the code or a kernel takes; logarithms of single start and transition "
    "probabilities are exempt",
    "scipy's logsumexp and numpy's logaddexp shift by the largest element",
    "between these bounds arithmetic is exact; the replays on the real build "
    "compare with exact rational arithmetic at likelihoods of 1e-3000 to "
    "1e3000",
]
HI, LO = 1e3, 1e-200


def watcher(w):
    """obligations at each exponential and logarithm."""
    def see(name, x, r):
        if r.special or x.special:
            return
        if name in ("exp", "expm1"):
            if not r.is_const:
                w.true("an exponential does not overflow",
                       w.or_(w.le(x, w.num(0)), w.le(r, w.num(HI))))
            return
        if name == "log1p":
            x = x + 1
        x = x.delog()
        if x.special or x.is_const:
            return
        if len(x.R) == 1 and single(x.R):
            return
        w.true("a logarithm's argument does not underflow",
               w.le(w.num(LO), x))
        w.true("a logarithm's argument does not overflow",
               w.or_(w.le(x, w.num(HI)), terms(w, x)))
    return see


def terms(w, x):
    """are the terms of a sum at most 1 each?"""
    if not 1 < len(x.R) < HI or any(c <= 0 for c in x.R.values()):
        return False
    return w.and_(*[w.le(w.log(type(x)({m: c})), w.num(0))
                    for m, c in x.R.items()])


def single(R):
    """one parameter of the model."""
    from symx import poly
    (m, c), = R.items()
    m = [(a, e) for a, e in m if a != poly.PI.id]
    return len(m) <= 1 and all(
        poly.ATOMS[a].kind == "var" and poly.ATOMS[a].name[:1] != "b"
        and e == 1 for a, e in m)


def big(x):
    """a rational's logarithm."""
    if x == 0:
        return -math.inf
    n, d = x.numerator, x.denominator
    k = n.bit_length() - d.bit_length()
    return math.log(Fraction(n, d) / Fraction(2) ** k) + k * math.log(2)


class Exact:
    """the frames of a run: b, or b to the power K in concrete runs."""

    def __init__(self, w, sp, tm, fp, K):
        self.w = w
        fr = np.vectorize(Fraction, otypes=[object])
        if w.symbolic:
            self.sp, self.tm, self.fp = sp, tm, fp
            self.logs = w.log(fp)
        else:
            self.sp, self.tm = fr(sp), fr(tm)
            if K != 1:
                # (short mantissas: the exact arithmetic is fast)
                m, x = np.frexp(fp)
                fp = np.ldexp(np.maximum(np.round(m * 64), m > 0), x - 6)
            self.fp = fr(fp) ** K
            self.logs = K * w.log(fp)

    def log(self, x):
        return self.w.log(x) if self.w.symbolic else big(x)

    def nums(self, a):
        if self.w.symbolic:
            return a
        return np.vectorize(float, otypes=[float])(a)


class Spec:
    """what the spec functions ask of a world."""
    num = staticmethod(Fraction)
    asarray = staticmethod(lambda a: np.asarray(a, dtype=object))


def domain(w, nc, lengths, what, pattern, frames, **_):
    n = sum(lengths)
    kw = {}
    if what == "counts":
        kw = dict(n_iter=1, params="st", init_params="")
    ss = w.pick(("full", "zero"))
    sp = w.simplex("p", nc, list(range(nc)) if ss == "full" or nc == 1 else
                   list(range(1, nc)))
    tm = w.stochastic("a", nc, support=w.pattern(nc, kinds=pattern))
    fp = (w.poss if frames == "pos" else w.nonnegs)("b", n, nc)
    m = abstract_class(w, kind="log")(n_components=nc, implementation="log",
                                      **kw)
    X = np.arange(n)[:, None]
    for K in (1,) if w.symbolic else (1, 60, 400) + (
            (-60, -400) if frames == "pos" else ()):
        e = Exact(w, sp, tm, fp, K)
        s = w if w.symbolic else Spec
        subs, i = [], 0
        for k in lengths:
            subs.append(range(i, i + k))
            i += k
        tots = [total(s, e.sp, e.tm, e.fp[list(r)]) for r in subs]
        if frames != "pos":
            for t in tots:
                w.assume(w.lt(w.num(0), t) if w.symbolic else t > 0)
        ll = summed(e.log(t) for t in tots)
        type(m)._compute_log_likelihood = \
            lambda self, X: e.logs[self._rows(X)]
        m.startprob_, m.transmat_ = sp, tm
        ls = None if len(lengths) == 1 else list(lengths)
        w.watch(watcher(w) if w.symbolic else None)
        try:
            if what == "score":
                got = m.score(X, ls), None
            elif what == "posteriors":
                got = m.score_samples(X, ls)
            else:
                m.fit(X, ls)
                got = m.monitor_.history[0], None
        finally:
            w.watch(None)
        w.eq("log-likelihood", got[0], ll)
        po = np.concatenate([np.asarray(posterior(
            s, e.sp, e.tm, e.fp[list(r)])) for r in subs])
        if what == "posteriors":
            w.eq("posteriors", got[1], e.nums(po))
        if what == "counts":
            a = [summed(po[r[0]][k] for r in subs) for k in range(nc)]
            t = summed(a)
            w.eq("startprob_", m.startprob_, e.nums([x / t for x in a]))
            xi = summed([np.asarray(pairwise(s, e.sp, e.tm, e.fp[list(r)]))
                         for r in subs])
            for i in range(nc):
                t = summed(xi[i])
                row = np.asarray(m.transmat_)[i]
                if w.symbolic:
                    # (nothing left the state: the row stays zero)
                    w.eq(f"transmat_[{i}]", [x * t for x in row], xi[i])
                elif t > 0 and float(t) > 1e-250:
                    w.eq(f"transmat_[{i}]", row, e.nums(xi[i] / t))
            m.monitor_.history.clear()


def underflow(w, nc, ns, **_):
    """a result means that no one-step predictive probability was below the
    threshold."""
    sp = w.nonnegs("p", nc)
    tm = w.nonnegs("a", nc, nc)
    fp = w.nonnegs("b", ns, nc)
    try:
        got, fwd, sc = w.k.forward_scaling(sp, tm, fp)
    except ValueError:
        return
    if not w.symbolic:
        s = Exact(w, sp, tm, fp, 1)
        pre = [Fraction(1)] + [total(Spec, s.sp, s.tm, s.fp[:t + 1])
                               for t in range(ns)]
        if max(float(x) if x < 10**300 else 1e300 for x in pre) < 1e290:
            w.true("no result after an underflow", all(
                pre[t + 1] >= Fraction(1, 10**301) * pre[t]
                for t in range(ns)))
            w.eq("log-likelihood", got, s.log(pre[-1]))
        return
    pre = [w.num(1)] + [total(w, sp, tm, fp[:t + 1]) for t in range(ns)]
    for t in range(ns):
        w.true("no result after an underflow",
               w.le(w.num(1e-300) * pre[t], pre[t + 1]))
        w.eq("scaling", sc[t] * pre[t + 1], pre[t])
    w.eq("log-likelihood", got, w.log(pre[-1]))


def emission(w, cls, nf, ctype="diag", train=False, **_):
    """log densities of one state's samples, in the log domain."""
    H = w.mod("hmm")
    kw = dict(n_components=1, implementation="log")
    if train:
        kw.update(n_iter=1, params="w", init_params="")
    stubs.reset()
    far = 1 if w.symbolic else 300.
    if cls == "GMMHMM":
        m = H.GMMHMM(n_mix=2, covariance_type=ctype, **kw)
        m.weights_ = wt = w.stochastic("g", 1, 2, support=[[0, 1]])
        m.means_ = mu = w.reals("m", 1, 2, nf)
        c = w.poss("c", 2) if ctype == "spherical" else w.poss("c", 2, nf)
        m.covars_ = w.asarray(np.asarray(c)[None])
        for x in np.ravel(c):
            w.assume(w.lt(w.num(TINY), x))
        X = w.asarray(np.asarray(w.reals("x", 2, nf)) * far)
        ld = []
        for t in range(2):
            row = []
            for k in range(2):
                ck = [c[k] if ctype == "spherical" else c[k][j]
                      for j in range(nf)]
                row.append(w.log(wt[0][k]) + summed(
                    [(w.log(w.num(2) * w.pi) + w.log(ck[j]) + (
                        X[t][j] - mu[0][k][j]) * (X[t][j] - mu[0][k][j])
                      / ck[j]) * -.5 for j in range(nf)]))
            ld.append(row)
        if w.symbolic:
            e = [[w.exp(a) for a in r] for r in ld]
            want = w.log(e[0][0] + e[0][1]) + w.log(e[1][0] + e[1][1])
            post = [[a / (r[0] + r[1]) for a in r] for r in e]
        else:
            want = np.logaddexp.reduce(ld, axis=1).sum()
            post = np.exp(ld - np.logaddexp.reduce(ld, axis=1)[:, None])
    elif cls == "GaussianHMM":
        m = H.GaussianHMM(covariance_type=ctype, **kw)
        m.means_ = mu = w.reals("m", 1, nf)
        c = w.poss("c", 1) if ctype == "spherical" else w.poss("c", 1, nf)
        m.n_features = nf
        for x in np.ravel(c):
            w.assume(w.lt(w.num(TINY), x))
        m.covars_ = c
        X = w.asarray(np.asarray(w.reals("x", 2, nf)) * far)
        want = summed([(w.log(w.num(2) * w.pi) + w.log(v) +
                        (X[t][j] - mu[0][j]) * (X[t][j] - mu[0][j]) / v) * -.5
                       for t in range(2) for j in range(nf) for v in [
                           c[0] if ctype == "spherical" else c[0][j]]])
    elif cls == "PoissonHMM":
        m = H.PoissonHMM(**kw)
        m.lambdas_ = la = w.poss("l", 1, nf)
        X = np.array([[150, 160], [0, 170]])[:, :nf]
        want = summed([w.num(int(X[t, j])) * w.log(la[0][j]) - la[0][j]
                       - lfact(w, X[t, j]) for t in range(2)
                       for j in range(nf)])
    else:
        m = H.MultinomialHMM(n_trials=np.array([160, 165]), **kw)
        m.emissionprob_ = e = w.stochastic("e", 1, nf,
                                           support=[list(range(nf))])
        X = np.array([[150, 10], [1, 164]])
        want = summed([lfact(w, X[t].sum()) + summed(
            [w.num(int(X[t, j])) * w.log(e[0][j]) - lfact(w, X[t, j])
             for j in range(nf)]) for t in range(2)])
    m.startprob_ = w.asarray([1.])
    m.transmat_ = w.asarray([[1.]])
    w.watch(watcher(w) if w.symbolic else None)
    try:
        if train:
            m.fit(X)
            got = m.monitor_.history[0]
        else:
            got = m.score(X)
    finally:
        w.watch(None)
    w.eq("log-likelihood", got, want)
    if train:
        w.eq("weights_", m.weights_[0],
             [(post[0][k] + post[1][k]) / 2 for k in range(2)])


def lfact(w, n):
    return w.log(w.num(math.factorial(int(n)))) if w.symbolic else \
        math.lgamma(n + 1)


def harnesses(tier):
    hs = []
    q = tier == "quick"
    for what in ("score", "posteriors", "counts"):
        for nc, ls in ((1, (2,)), (2, (1,)), (2, (2,)), (2, (3,)),
                       (2, (1, 2)), (3, (2,))) + (() if q else (
                           (2, (4,)), (3, (3,)), (2, (2, 2)))):
            for frames in ("pos", "nonneg"):
                if frames == "nonneg" and nc ** sum(ls) > (4 if q else 8):
                    continue
                hs.append(Harness(
                    f"{what}-{nc}-{'+'.join(map(str, ls))}-{frames}", domain,
                    dict(nc=nc, lengths=ls, what=what, frames=frames,
                         pattern=("full", "zero")),
                    cost=nc ** sum(ls),
                    bound=f"{nc} states, sequences of {ls} samples, any "
                    "likelihoods, any (or structurally zero) start and "
                    "transition probabilities"))
    for cls, nf, ct, train in (
            ("GMMHMM", 1, "diag", False), ("GMMHMM", 2, "spherical", False),
            ("GMMHMM", 1, "spherical", True), ("GMMHMM", 2, "diag", True),
            ("GaussianHMM", 1, "diag", False),
            ("GaussianHMM", 2, "spherical", False),
            ("PoissonHMM", 1, "", False), ("PoissonHMM", 2, "", False),
            ("MultinomialHMM", 2, "", False)):
        hs.append(Harness(
            f"emission-{cls}-{ct}{nf}" + "-train" * train, emission,
            dict(cls=cls, nf=nf, ctype=ct, train=train), cost=3,
            overrides=stubs.CLUSTER if train else None,
            bound=f"{cls} {ct}: one state, two samples, {nf} features"))
    for nc, ns in ((1, 2), (2, 1), (2, 2), (2, 3), (3, 2)) + (() if q else (
            (2, 4), (3, 3))):
        hs.append(Harness(
            f"underflow-{nc}x{ns}", underflow, dict(nc=nc, ns=ns),
            cost=nc ** ns, bound=f"{nc} states, {ns} samples"))
    return hs
