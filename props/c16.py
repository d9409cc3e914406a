"""C16 sampling."""
import time
import numpy as np
from symx.runner import Harness, point_json, validate
from props.models import TINY, abstract_class, covariances

ASSUMPTIONS = [
    "the random generator's uniforms are arbitrary numbers in [0, 1); its "
    "multivariate normal, Poisson, multinomial and weighted choice methods "
    "follow their contract (the arguments they are given are checked)",
    "rounding: the fp-* harnesses run the same code on IEEE doubles, bit for "
    "bit; the others use real arithmetic",
]


def inverse_cdf(w, tag, k, p, u):
    """k is the inverse of p's cdf at u; p sums to one."""
    k = int(k)
    w.true(f"{tag}: range", 0 <= k < len(p))
    lo = w.num(0)
    for i in range(k):
        lo = lo + p[i]
    w.true(f"{tag}: lower end", w.le(lo, u))
    w.true(f"{tag}: upper end", w.lt(u, lo + p[k]))
    w.true(f"{tag}: possible", w.lt(w.num(0), p[k]) if w.symbolic
           else p[k] > 0)


def pars(w, nc, pattern):
    sup = w.pattern(nc, kinds=(pattern,))
    ss = list(range(nc)) if pattern == "full" or nc == 1 else \
        list(range(1, nc))
    return (w.simplex("p", nc, ss), w.stochastic("a", nc, support=sup))


def draws(w, R, kind="rand"):
    return [c[1] for c in R.calls if c[0] == kind]


def states(w, nc, ns, pattern, start, how):
    """start, transition and (unit) emission draws of an abstract model."""
    m = abstract_class(w)(n_components=nc)
    sp, tm = pars(w, nc, pattern)
    m.startprob_, m.transmat_ = sp, tm
    R = w.random("u")
    asked = []

    def gen(state, random_state):
        asked.append((int(state), random_state))
        return [10 + len(asked)]
    m._generate_sample_from_state = gen
    kw = {}
    cur = None
    if start:
        kw["currstate"] = cur = w.choose(nc)
    if how == "arg":
        m.random_state = 3
        kw["random_state"] = R
    else:
        m.random_state = R
    X, z = m.sample(ns, **kw)
    w.true("shapes", np.shape(X) == (ns, 1) and np.shape(z) == (ns,))
    z = [int(i) for i in z]
    w.true("observations are drawn from the states visited",
           [a[0] for a in asked] == z and all(a[1] is R for a in asked)
           and [int(x[0]) for x in X] == [11 + i for i in range(ns)])
    us = draws(w, R)
    w.true("one draw per random step", len(us) == ns - bool(start))
    if cur is None:
        inverse_cdf(w, "start", z[0], sp, us.pop(0))
    else:
        w.true("given state first", z[0] == cur)
    for t in range(1, ns):
        inverse_cdf(w, f"step {t}", z[t], tm[z[t - 1]], us.pop(0))


def base(w, C, nc, **kw):
    m = C(n_components=nc, **kw)
    m.startprob_ = w.asarray([0.] * (nc - 1) + [1.])
    m.transmat_ = w.asarray(np.eye(nc)[[(i + 1) % nc for i in range(nc)]])
    return m, [(nc - 1 + i) % nc for i in range(2 * nc)]


def categorical(w, nc, nf, ns, zero):
    m, order = base(w, w.mod("hmm").CategoricalHMM, nc)
    e = w.stochastic("e", nc, nf, support=[
        [j for j in range(nf) if not zero or j != (i + zero - 1) % nf]
        for i in range(nc)])
    m.emissionprob_ = e
    R = w.random("u")
    X, z = m.sample(ns, random_state=R)
    w.true("shapes", np.shape(X) == (ns, 1) and np.shape(z) == (ns,))
    w.true("integers", np.asarray(X).dtype.kind == "i")
    us = draws(w, R)
    w.true("deterministic chain", [int(i) for i in z] == order[:ns])
    w.true("one draw per random step", len(us) == 2 * ns)
    for t in range(ns):
        inverse_cdf(w, f"symbol {t}", X[t][0], e[int(z[t])], us[2 * t + 1])


def poisson(w, nc, nf, ns):
    m, order = base(w, w.mod("hmm").PoissonHMM, nc)
    m.lambdas_ = lam = w.poss("l", nc, nf)
    R = w.random("u")
    X, z = m.sample(ns, random_state=R)
    c = draws(w, R, "poisson")
    w.true("shapes", np.shape(X) == (ns, nf) and np.shape(z) == (ns,))
    w.true("one draw per sample", len(c) == ns)
    for t in range(ns):
        w.eq(f"rates {t}", c[t], lam[order[t]])
        w.eq(f"counts {t}", X[t], np.arange(t + 1, t + 1 + nf))


def multinomial(w, nc, nf, ns, trials):
    m, order = base(w, w.mod("hmm").MultinomialHMM, nc, n_trials=trials)
    m.emissionprob_ = e = w.stochastic("e", nc, nf,
                                       support=[list(range(nf))] * nc)
    R = w.random("u")
    X, z = m.sample(ns, random_state=R)
    cs = [c for c in R.calls if c[0] == "multinomial"]
    w.true("shapes", np.shape(X) == (ns, nf) and np.shape(z) == (ns,))
    w.true("one draw per sample", len(cs) == ns)
    n = trials if isinstance(trials, int) else trials[0]
    for t in range(ns):
        w.true(f"trials {t}", int(cs[t][1]) == n)
        w.eq(f"probabilities {t}", np.reshape(cs[t][2], (nf,)), e[order[t]])
        w.true(f"total {t}", int(np.sum(X[t])) == n)


def mixed_trials(w):
    m, order = base(w, w.mod("hmm").MultinomialHMM, 2,
                    n_trials=np.array([3, 4]))
    m.emissionprob_ = w.stochastic("e", 2, 2, support=[[0, 1]] * 2)
    w.raises("several numbers of trials", ValueError, m.sample, 1,
             random_state=w.random("u"))


def gaussian(w, nc, nf, ns, ctype):
    m, order = base(w, w.mod("hmm").GaussianHMM, nc, covariance_type=ctype)
    m.n_features = nf
    m.means_ = mu = w.reals("m", nc, nf)
    cv, full = covariances(w, ctype, nc, nf)
    if ctype in ("spherical", "diag"):
        for x in np.ravel(cv):
            w.assume(w.lt(w.num(TINY), x))
    m.covars_ = cv
    R = w.random("u")
    X, z = m.sample(ns, random_state=R)
    w.true("shapes", np.shape(X) == (ns, nf) and np.shape(z) == (ns,))
    cs = [c for c in R.calls if c[0] == "multivariate_normal"]
    w.true("one draw per sample", len(cs) == ns)
    for t in range(ns):
        k = order[t]
        w.eq(f"mean {t}", cs[t][1], mu[k])
        w.eq(f"covariance {t}", cs[t][2], w.asarray(np.array(
            [[full[k][i][j] for j in range(nf)] for i in range(nf)],
            dtype=object)))


def gmm(w, nc, nm, nf, ns, ctype):
    m, order = base(w, w.mod("hmm").GMMHMM, nc, covariance_type=ctype,
                    n_mix=nm)
    m.n_features = nf
    m.weights_ = wt = w.stochastic("w", nc, nm,
                                   support=[list(range(nm))] * nc)
    m.means_ = mu = w.reals("m", nc, nm, nf)
    if ctype == "tied":
        cv, fl = covariances(w, "full", nc, nf)
        full = [[fl[k]] * nm for k in range(nc)]
    else:
        cv, fl = covariances(w, ctype, nc * nm, nf)
        full = [[fl[k * nm + j] for j in range(nm)] for k in range(nc)]
        if ctype in ("spherical", "diag"):
            for x in np.ravel(cv):
                w.assume(w.lt(w.num(TINY), x))
        cv = w.asarray(np.asarray(cv).reshape((nc, nm) + np.shape(cv)[1:]))
    m.covars_ = cv
    R = w.random("u")
    X, z = m.sample(ns, random_state=R)
    w.true("shapes", np.shape(X) == (ns, nf) and np.shape(z) == (ns,))
    ch = [c for c in R.calls if c[0] == "choice"]
    cs = [c for c in R.calls if c[0] == "multivariate_normal"]
    w.true("draws per sample", len(cs) == ns and len(ch) == ns)
    picks = list(w.choices)[-ns:] if ns else []
    for t in range(ns):
        k = order[t]
        w.eq(f"weights {t}", np.asarray(ch[t][3]), wt[k])
        w.true(f"components {t}", ch[t][1] == nm or
               list(ch[t][1]) == list(range(nm)))
        j = picks[t]
        w.eq(f"mean {t}", cs[t][1], mu[k][j])
        w.eq(f"covariance {t}", cs[t][2], w.asarray(np.array(
            [[full[k][j][a][b] for b in range(nf)] for a in range(nf)],
            dtype=object)))


# ------------------------------------------------------- floating point
def fp(w, what, n, zeros):
    """outcomes of probability zero are never drawn, rounding included."""
    p = [0. if i in zeros else w.unit(f"p{i}") for i in range(n)]
    w.total(p)
    R = w.random("u")
    if what == "emission":
        m = w.mod("hmm").CategoricalHMM(n_components=1)
        m.startprob_ = w.asarray([1.])
        m.transmat_ = w.asarray([[1.]])
        m.emissionprob_ = w.asarray(np.array([p], dtype=object))
        X, _ = m.sample(1, random_state=R, currstate=0)
        k = int(X[0][0])
    else:
        m = abstract_class(w)(n_components=n)
        m._generate_sample_from_state = lambda s, random_state: [0]
        one = [1.] + [0.] * (n - 1)
        row = w.asarray(np.array(p, dtype=object))
        if what == "start":
            m.startprob_, m.transmat_ = row, w.asarray(np.array([one] * n))
            _, z = m.sample(1, random_state=R)
            k = int(z[0])
        else:
            m.startprob_ = w.asarray(np.array(one))
            m.transmat_ = w.asarray(np.array([p] + [one] * (n - 1),
                                             dtype=object))
            _, z = m.sample(2, random_state=R, currstate=0)
            k = int(z[1])
    w.true("zero-probability outcome drawn", 0 <= k < n and k not in zeros)
    return k


def fp_concrete(w, what, n, zeros):
    """same, on the real build (double arithmetic)."""
    w.unit = lambda name: w.pos(name, hi=1)

    def total(p):
        if not abs(sum(p) - 1) < 2e-6:
            w.assume(False)
    w.total = total
    if getattr(w, "fp", False):
        raise AssertionError
    fp(w, what, n, zeros)


def fp_sym(h, res, real, limit):
    import z3
    from symx import fpdom, loader, npshim, runner
    from symx.fpdom import F
    from symx.poly import Unsupported
    deadline = time.time() + limit
    sort = {64: z3.Float64(), 32: z3.Float32(), 16: z3.Float16()}[
        h.params.get("bits", 64)]
    zeros, n = h.params["zeros"], h.params["n"]
    over = {"numpy": {"allclose": lambda *a, **k: True}}
    stats = {}
    reps, cand = [], []

    class Rand:
        _symx_random = True

        def __init__(self, w):
            self.w = w
            self.n = 0

        def rand(self):
            self.n += 1
            return self.w.var(f"u{self.n}", 0., 1., False)
        random_sample = random = rand

        def uniform(self, low=0., high=1.):
            if (low, high) != (0., 1.):
                raise Unsupported("uniform")
            return self.rand()

        def __getattr__(self, name):
            raise Unsupported(f"random_state.{name}")

    class W:
        symbolic = True

        def __init__(self, run):
            self.run = run
            self.pkg = loader.Package(runner.SRC, None, over)
            self.bad = False

        def mod(self, name):
            return self.pkg.module(name)

        def log(self, x):
            raise Unsupported("log")

        def asarray(self, a):
            a = np.asarray(a)
            out = np.empty(a.shape, dtype=object)
            for ix in np.ndindex(*a.shape):
                out[ix] = F.of(a[ix])
            return out.view(npshim.SA)

        def var(self, name, lo, hi, closed=True):
            x = z3.FP(name, sort)
            if name not in self.run.vars:
                self.run.vars[name] = x
                self.run.pc.append(z3.fpLEQ(z3.FPVal(lo, sort), x))
                self.run.pc.append(z3.Not(z3.fpIsNegative(x)))
                b = z3.FPVal(hi, sort)
                self.run.pc.append(z3.fpLEQ(x, b) if closed
                                   else z3.fpLT(x, b))
            return F(x)

        def unit(self, name):
            x = self.var(name, 0., 1.)
            self.run.pc.append(z3.fpLT(z3.FPVal(0., sort), x.e))
            return x

        def total(self, p):
            s = None
            for x in p:
                x = F.of(x)
                s = x if s is None else s + x
            if not (s.z is None and z3.is_const(s.e) and False):
                self.run.pc.append(z3.fpLEQ(s.e, z3.FPVal(1.000001, sort)))
                self.run.pc.append(z3.fpGEQ(s.e, z3.FPVal(.999999, sort)))

        def random(self, tag):
            return Rand(self)

        def true(self, label, c):
            if not c:
                self.bad = label

    def go(run):
        w = W(run)
        try:
            k = fp(w, h.params["what"], n, zeros)
        except Unsupported as e:
            return ("unsupported", str(e), None)
        return ("ok", k, w.bad)

    def check(run, val, solve):
        kind, k, bad = val
        res["obligations"] += 1
        if kind != "ok":
            res["undecided"].append(k)
            return
        if not bad:
            res["discharged"] += 1
            if len(reps) < 3:
                a, m = solve()
                if m is not None:
                    reps.append(([{nm: fpdom.fp_value(m, x) for nm, x in
                                   run.vars.items()}], []))
            return
        a, m = solve()
        if a == "unsat":
            res["discharged"] += 1
        elif a == "sat":
            pt = {nm: fpdom.fp_value(m, x) for nm, x in run.vars.items()}
            cand.append((f"{bad}: {k} at {pt}", [pt], []))
        else:
            res["undecided"].append(f"{bad}: {k}")
    import logging
    logging.disable(logging.CRITICAL)
    res["paths"], done = fpdom.explore(sort, go, check, deadline,
                                       stats=stats)
    if not done:
        res["undecided"].append("time limit")
    from symx.engine import Stats
    st = Stats()
    st.queries = stats.get("queries", 0)
    st.solver_s = stats.get("solver_s", 0.)
    st.unsat, st.sat = stats.get("unsat", 0), stats.get("sat", 0)
    st.unknown = stats.get("unknown", 0)
    st.paths = res["paths"]
    res["stats"] = st.as_dict()
    res["functions"] = sorted(loader.COVERED)
    # further draws: the extreme uniforms on random rows
    import random
    r = random.Random(1)
    for _ in range(8):
        ps = [0. if i in zeros else r.random() + 1e-3 for i in range(n)]
        s = sum(ps)
        pt = {f"p{i}": x / s for i, x in enumerate(ps)}
        pt["u1"] = r.choice([0., 1 - 2. ** -53, r.random()])
        reps.append(([pt], []))
    validate(h, res, real, cand, reps, [])


def harnesses(tier):
    hs = []
    q = tier == "quick"
    for nc, ns in [(1, 2), (2, 1), (2, 3), (3, 2)] + (
            [] if q else [(3, 3), (4, 2), (2, 5)]):
        for pat in ("full", "zero", "ident"):
            for start in (False, True):
                for how in ("arg", "attr"):
                    if how == "attr" and pat != "full":
                        continue
                    hs.append(Harness(
                        f"states-{nc}-{ns}-{pat}-{start}-{how}", states,
                        dict(nc=nc, ns=ns, pattern=pat, start=start, how=how),
                        kernel=None, cost=nc ** ns,
                        bound=f"{nc} states, {ns} samples, every uniform "
                        "draw"))
    for nc, nf, ns, z in [(2, 2, 1, 0), (2, 3, 2, 0), (2, 3, 2, 1),
                          (2, 3, 2, 3), (1, 4, 1, 2)]:
        hs.append(Harness(f"symbols-{nc}-{nf}-{ns}-{z}", categorical,
                          dict(nc=nc, nf=nf, ns=ns, zero=z), kernel=None,
                          bound=f"CategoricalHMM, {nf} symbols, {ns} "
                          "samples"))
    for nc, nf, ns in [(2, 1, 2), (2, 3, 3)]:
        hs.append(Harness(f"poisson-{nc}-{nf}-{ns}", poisson,
                          dict(nc=nc, nf=nf, ns=ns), kernel=None,
                          bound=f"PoissonHMM, {nf} features"))
    for nc, nf, ns, t in [(2, 2, 2, 3), (2, 3, 2, [4, 4])]:
        hs.append(Harness(f"multinomial-{nc}-{nf}-{ns}", multinomial,
                          dict(nc=nc, nf=nf, ns=ns, trials=t), kernel=None,
                          bound=f"MultinomialHMM, {nf} features"))
    hs.append(Harness("multinomial-trials", mixed_trials, kernel=None,
                      bound="several n_trials"))
    for ct in ("spherical", "diag", "tied", "full"):
        for nc, nf, ns in [(2, 2, 2), (3, 1, 4)]:
            hs.append(Harness(f"gaussian-{ct}-{nc}-{nf}-{ns}", gaussian,
                              dict(nc=nc, nf=nf, ns=ns, ctype=ct),
                              kernel=None, bound=f"GaussianHMM {ct}, {nc} "
                              f"states, {nf} features"))
        for nc, nm, nf, ns in [(2, 2, 1, 2), (2, 3, 1, 1),
                               (1, 2, 2, 1)] + (
                [] if q else [(2, 2, 2, 1)]):
            hs.append(Harness(f"gmm-{ct}-{nc}-{nm}-{nf}-{ns}", gmm,
                              dict(nc=nc, nm=nm, nf=nf, ns=ns, ctype=ct),
                              kernel=None, bound=f"GMMHMM {ct}, {nc} states,"
                              f" {nm} components, {nf} features"))
    for what in ("start", "transition", "emission"):
        for n, zs in [(2, (0,)), (2, (1,)), (3, (0,)), (3, (1,)), (3, (2,)),
                      (3, (0, 2))] + ([] if q else [
                          (4, (0,)), (4, (1,)), (4, (3,)), (4, (0, 3))]):
            hs.append(Harness(
                f"fp-{what}-{n}-{''.join(map(str, zs))}", fp_concrete,
                dict(what=what, n=n, zeros=zs), symrun=fp_sym,
                cost=100, limit=150 if q else 900, kernel=None,
                bound=f"IEEE double arithmetic: {n} outcomes of which {zs} "
                "have probability zero, every row summing to 1 within 1e-6, "
                "every uniform in [0, 1)"))
    return hs
