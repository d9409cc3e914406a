"""C08 start and transition re-estimation."""
import numpy as np
from symx.runner import Harness
from props.spec import pairwise, posterior, summed, total
from props.models import abstract_model

ASSUMPTIONS = ["real arithmetic: rounding is not modelled"]


def split(fp, lengths):
    out, i = [], 0
    for n in lengths:
        out.append(fp[i:i + n])
        i += n
    return out


def normalized(w, row):
    return [x / summed(row) for x in row]


def prior(w, kind, name, *shape):
    """(constructor argument, array) of a Dirichlet prior."""
    if kind == "one":
        return 1.0, np.ones(shape)
    if kind == "scalar":
        p = w.num(1) + w.nonneg(name)
        return p, w.arr(shape, lambda *ix: p)
    if kind == "array":
        p = w.poss(name, *shape) + 1
        return p, p
    if kind == "below":      # < 1: clipping can bite
        p = w.pos(name, hi=1, sampler=lambda r, s: r.uniform(.01, .99))
        return p, w.arr(shape, lambda *ix: p)


def step(w, nc, lengths, impl, pr, pattern=("full",), spattern=("full",),
         params="st", kind="both"):
    sp_arg, sp_pr = prior(w, pr, "ps", nc)
    tm_arg, tm_pr = prior(w, pr, "pt", nc, nc)
    m, sp, tm, fp, X = abstract_model(
        w, nc, sum(lengths), pattern=pattern, spattern=spattern, kind=kind,
        implementation=impl, startprob_prior=sp_arg, transmat_prior=tm_arg,
        n_iter=1, params=params, init_params="")
    subs = split(fp, lengths)
    cs = summed(posterior(w, sp, tm, f)[0] for f in subs)
    ct = [pairwise(w, sp, tm, f) for f in subs if len(f) > 1]
    ct = summed(ct) if ct else np.zeros((nc, nc))
    sz = [w.is0(x) for x in sp]
    tz = [[w.is0(x) for x in r] for r in tm]
    try:
        r = m.fit(X, None if len(lengths) == 1 else list(lengths))
    except ValueError:
        if impl == "log":
            raise
        return
    w.true("fit returns the model", r is m)

    def expect(pr, c, z):
        if z:
            return w.num(0)
        x = pr - 1 + c
        if pr_below and not w.symbolic:
            w.generic(abs(x) > 1e-7)
        return w.maximum(x, 0) if pr is not None and pr_below else x
    pr_below = pr == "below"
    if "s" in params:
        row = [expect(sp_pr[i], cs[i], sz[i]) for i in range(nc)]
        tot = summed(row)
        if pr_below:     # all of the mass clipped away: not covered
            w.assume(w.lt(w.num(0), tot) if w.symbolic else tot > 0)
        w.eq("startprob_", m.startprob_, [x / tot for x in row])
        for i in range(nc):
            if sz[i]:
                w.eq("zero start probabilities stay zero",
                     m.startprob_[i], 0)
    else:
        w.eq("startprob_ untrained", m.startprob_, sp)
    if "t" in params:
        for i in range(nc):
            row = [expect(tm_pr[i][j], ct[i][j], tz[i][j])
                   for j in range(nc)]
            tot = summed(row)
            empty = bool(w.equal(tot, w.num(0))) if w.symbolic else tot == 0
            w.eq(f"transmat_ row {i}", m.transmat_[i],
                 row if empty else [x / tot for x in row])
            for j in range(nc):
                if tz[i][j]:
                    w.eq("zero transitions stay zero", m.transmat_[i][j], 0)
    else:
        w.eq("transmat_ untrained", m.transmat_, tm)


def harnesses(tier):
    hs = []
    q = tier == "quick"

    def add(nc, ls, impl, pr, pattern=("full",), spattern=("full",),
            cost=None, nra_ms=3000, keep=None, **k):
        nm = "+".join(map(str, ls))
        pt = "".join(p[0] for p in pattern) + "".join(p[0] for p in spattern)
        hs.append(Harness(
            ("larger-" if keep else "step-") + f"{impl}-{nc}x{nm}-{pr}-{pt}"
            + "".join(f"-{v}" for v in k.values()), step,
            dict(nc=nc, lengths=ls, impl=impl, pr=pr, pattern=pattern,
                 spattern=spattern, **k),
            cost=cost or nc ** sum(ls), nra_ms=nra_ms,
            keep=keep,
            bound=f"n_components={nc}, sequences of {nm} samples, prior "
            f"{pr}, zero patterns {pattern}/{spattern}"
            + (f"; arbitrary: {keep}, everything else fixed" if keep
               else "")))
    for impl in ("log", "scaling"):
        for pr in ("one", "scalar", "array"):
            add(2, (2,), impl, pr)
        add(2, (3,), impl, "one")
        add(2, (3,), impl, "array")
        add(2, (1,), impl, "array")
        add(2, (1, 1), impl, "one")
        add(2, (2, 1), impl, "array")
        add(2, (1, 2), impl, "one")
        add(2, (2, 2), impl, "scalar")
        add(3, (2,), impl, "array")
        for ps in "st":
            add(2, (2,), impl, "below", cost=30, params=ps,
                spattern=("zero",) if ps == "t" and impl == "log"
                else ("full",))
        add(2, (3,), impl, "scalar", pattern=("zero", "one", "ident"),
            spattern=("full", "zero"), cost=30)
        add(3, (2,), impl, "scalar", pattern=("zero",), spattern=("zero",))
        add(1, (3,), impl, "one")
        add(2, (2,), impl, "array", params="s")
        add(2, (2,), impl, "array", params="t")
        add(2, (2, 1), impl, "array", params="", cost=1)
        K = "b0_1|b3_0|pt0_1|ps1"
        add(2, (1, 4, 1, 3), impl, "array", keep=K)
        add(5, (3, 2), impl, "array", keep=K, pattern=("zero",))
        add(2, (12,), impl, "scalar", keep=K + "|pt|ps")
        if not q:
            add(3, (5, 1, 1, 4, 2), impl, "array", keep=K)
            add(8, (3,), impl, "array", keep=K, pattern=("zero",))
            add(2, (40 if impl == "scaling" else 20,), impl, "one", keep=K)
        if not q:
            add(2, (4,), impl, "one")
            add(2, (2, 2), impl, "array")
            add(3, (3,), impl, "one")
            add(2, (3, 2), impl, "one")
            add(2, (1, 1), impl, "below", cost=60)
            add(2, (5,), impl, "one")
            add(4, (2,), impl, "array")
            add(3, (2, 1), impl, "scalar", pattern=("one",),
                spattern=("full", "zero"))
    return hs
