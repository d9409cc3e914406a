"""C15 convergence."""
import logging
from fractions import Fraction
import numpy as np
from symx.runner import Harness

ASSUMPTIONS = [
    "one state and one-sample sequences, whose log-likelihood in each "
    "iteration is an arbitrary real; real arithmetic",
]
PREC = 2. ** -26


class Capture(logging.Handler):
    """which reports were logged as a decrease."""

    def __init__(self, monitor):
        super().__init__()
        self.monitor = monitor
        self.at = []

    def emit(self, record):
        if "converging" in record.getMessage():
            self.at.append(len(self.monitor().history))


class capture:
    def __init__(self, monitor):
        self.h = Capture(monitor)

    def __enter__(self):
        self.log = logging.getLogger("hmmlearn.base")
        self.old = logging.root.manager.disable, self.log.propagate, \
            self.log.level
        logging.disable(logging.NOTSET)
        self.log.propagate = False
        self.log.setLevel(logging.INFO)
        self.log.addHandler(self.h)
        return self.h

    def __exit__(self, *a):
        self.log.removeHandler(self.h)
        logging.disable(self.old[0])
        self.log.propagate = self.old[1]
        self.log.setLevel(self.old[2])


def clear(w, d, tol, h1, h0, l1, l0):
    """concrete runs: the comparison with tol is not decided by rounding."""
    w.generic(abs(d - tol) > 1e-6 and abs(d + PREC) > 1e-12
              or h1 == l1 and h0 == l0
              and Fraction(float(l1)) - Fraction(float(l0)) == Fraction(
                  float(d)))


def history_ok(w, tag, hist, L, n_iter, tol, converged, warned, it):
    """hist is the prefix of L that the stopping rule asks for."""
    k = len(hist)
    w.true(f"{tag}at most n_iter", 1 <= k <= n_iter)
    w.eq(f"{tag}history", w.asarray(np.array(list(hist), dtype=object)),
         w.asarray(np.array(L[:k], dtype=object)))
    for i in range(1, k):
        d = L[i] - L[i - 1]
        if not w.symbolic:
            clear(w, d, tol, hist[i], hist[i - 1], L[i], L[i - 1])
        if i < k - 1:
            w.true(f"{tag}goes on after {i + 1}", w.le(tol, d))
        elif k < n_iter:
            w.true(f"{tag}stops after {i + 1}", w.lt(d, tol))
        dec = w.lt(d, w.num(-PREC)) if w.symbolic else d < -PREC
        w.true(f"{tag}decrease at {i + 1} is logged iff it is one",
               dec if i in warned else w.not_(dec))
    w.true(f"{tag}does not stop after one of several iterations",
           k >= min(2, n_iter))
    w.true(f"{tag}converged", converged is True or bool(converged))
    w.eq(f"{tag}iter", w.num(it), w.num(k))
    w.true(f"{tag}logged once", len(set(warned)) == len(warned))


def model(w, L, n_iter, tol, impl, base="BaseHMM", seqs=1):
    B = getattr(w.mod("base"), base)
    log = []

    class M(B):
        fits = 0

        def _vals(self):
            log.append("e")
            i = sum(1 for x in log if x == "e") - 1
            return w.asarray(np.array([[L[i]]], dtype=object))

        def _compute_log_likelihood(self, X):
            return self._vals()

        def _compute_likelihood(self, X):
            return w.exp(self._vals())
        _compute_subnorm_log_likelihood = _compute_log_likelihood
        _compute_subnorm_likelihood = _compute_likelihood

        def _do_mstep(self, stats):
            log.append("m")
            super()._do_mstep(stats)

        def _get_n_fit_scalars_per_param(self):
            return None

        @classmethod
        def _get_param_names(c):
            return B._get_param_names()
    kw = {}
    if base == "BaseHMM":
        kw = dict(params="s", init_params="")
    else:
        kw = dict(params="st", init_params="st")
    m = M(n_components=1, n_iter=n_iter, tol=tol, implementation=impl, **kw)
    m.startprob_ = w.asarray([1.])
    m.transmat_ = w.asarray([[1.]])
    return m, log


def fit(w, n_iter, impl, base="BaseHMM", seqs=1, fits=1, verbose=False,
        bounded=False):
    tol = w.real("tol")
    if bounded:
        w.assume(w.le(w.num(0), tol))
    raw = [w.real(f"L{i}", lo=-4 if impl == "scaling" else None,
                  hi=4 if impl == "scaling" else None)
           for i in range(n_iter * seqs * fits)]
    m, log = model(w, raw, n_iter, tol, impl, base, seqs)
    X = np.zeros((seqs, 1))
    used = 0
    for f in range(fits):
        L = []
        for i in range(n_iter):
            s = w.num(0)
            for x in raw[used + i * seqs:used + (i + 1) * seqs]:
                s = s + x
            L.append(s)
        n0 = len(log)
        with capture(lambda: m.monitor_) as c:
            try:
                r = m.fit(X, None if seqs == 1 else [1] * seqs)
            except ValueError:       # underflow is reported
                if impl == "log":
                    raise
                w.true("underflow", True)
                return
        w.true("fit returns the model", r is m)
        k = len(m.monitor_.history)
        history_ok(w, f"fit {f + 1}: ", m.monitor_.history, L, n_iter, tol,
                   m.monitor_.converged, c.at, m.monitor_.iter)
        w.true(f"fit {f + 1}: one E-step and one M-step per iteration",
               log[n0:] == (["e"] * seqs + ["m"]) * k)
        used += k * seqs


def monitor(w, n, n_iter):
    """the monitor on its own, before and after each report."""
    tol = w.real("tol")
    L = [w.real(f"L{i}") for i in range(n)]
    M = w.mod("base").ConvergenceMonitor(tol, n_iter, False)
    M._reset()
    with capture(lambda: M) as c:
        for i in range(n):
            M.report(L[i])
            h = list(M.history)
            w.eq(f"history {i}", w.asarray(np.array(h, dtype=object)),
                 w.asarray(np.array(L[:i + 1], dtype=object)))
            got = bool(M.converged)
            small = False
            if i:
                d = L[i] - L[i - 1]
                if not w.symbolic:
                    clear(w, d, tol, h[i], h[i - 1], L[i], L[i - 1])
                small = w.lt(d, tol) if w.symbolic else d < tol
                dec = w.lt(d, w.num(-PREC)) if w.symbolic else d < -PREC
                w.true(f"logged {i}", dec if i in c.at else w.not_(dec))
            if i + 1 == n_iter:
                w.true(f"converged at n_iter ({i})", got)
            elif not i:
                w.true("not converged after one report", not got)
            else:
                w.true(f"converged {i}", small if got else w.not_(small))


def reconfigured(w, old, new):
    """n_iter changed by set_params after construction is what counts."""
    L = [w.real(f"L{i}") for i in range(max(old, new))]
    for a, b in zip(L, L[1:]):
        w.assume(w.lt(a + 1, b))
    m, log = model(w, L, old, .01, "log")
    m.set_params(n_iter=new)
    m.fit(np.zeros((1, 1)))
    w.true("runs the requested number of iterations",
           len(m.monitor_.history) == new)
    w.true("converged flag", bool(m.monitor_.converged))


def harnesses(tier):
    hs = []
    q = tier == "quick"
    for impl in ("log", "scaling"):
        for n in (1, 2, 3, 4) + (() if q else (5, 6)):
            hs.append(Harness(f"fit-{n}-{impl}", fit,
                              dict(n_iter=n, impl=impl),
                              bound=f"n_iter={n}, every objective history "
                              "and tolerance"))
        hs.append(Harness(f"fit-2-{impl}-2seq", fit,
                          dict(n_iter=3, impl=impl, seqs=2), cost=3,
                          bound="n_iter=3, two sequences"))
        hs.append(Harness(f"refit-{impl}", fit,
                          dict(n_iter=3 if q else 4, impl=impl, fits=2),
                          cost=5, bound="two fits of the same model"))
    for n in (2, 3):
        hs.append(Harness(f"vfit-{n}", fit,
                          dict(n_iter=n, impl="log",
                               base="VariationalBaseHMM"),
                          bound=f"variational base, n_iter={n}"))
    for n, k in [(4, 3), (4, 9), (3, 1)] + ([] if q else [(6, 9), (6, 4)]):
        hs.append(Harness(f"monitor-{n}-{k}", monitor, dict(n=n, n_iter=k),
                          kernel=None, bound=f"{n} reports, n_iter={k}"))
    for a, b in ((3, 2), (2, 4)):
        hs.append(Harness(f"reconfigured-{a}-{b}", reconfigured,
                          dict(old=a, new=b), bound=f"n_iter changed from "
                          f"{a} to {b} after construction"))
    return hs
