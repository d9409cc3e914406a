"""C05 sequence boundaries."""
import numpy as np
from symx.runner import Harness
from props.spec import joint, pairwise, paths, posterior, summed, total
from props.models import abstract_model, chain, large_model

ASSUMPTIONS = ["real arithmetic: rounding is not modelled"]


def compositions(n):
    if n == 0:
        yield ()
    for k in range(1, n + 1):
        for r in compositions(n - k):
            yield (k,) + r


def split(fp, lengths):
    out, i = [], 0
    for n in lengths:
        out.append(fp[i:i + n])
        i += n
    return out


def as_lengths(w, lengths):
    return w.pick([list(lengths), tuple(lengths),
                   np.array(lengths, dtype=np.int64)])


def scoring(w, nc, lengths, impl, pattern=("full",)):
    m, sp, tm, fp, X = abstract_model(w, nc, sum(lengths), pattern=pattern,
                                      implementation=impl)
    L = as_lengths(w, lengths)
    subs = split(fp, lengths)
    logs = w.num(0)
    for f in subs:
        logs = logs + w.log(total(w, sp, tm, f))
    try:
        got = m.score(X, L)
        lp, po = m.score_samples(X, L)
        pp = m.predict_proba(X, L)
    except ValueError:
        if impl == "log":
            raise
        return
    w.eq("score is the sum over sequences", got, logs)
    w.eq("score_samples log_prob", lp, logs)
    exp = np.concatenate([posterior(w, sp, tm, f) for f in subs])
    w.eq("posteriors are per sequence", po, exp)
    w.eq("predict_proba", pp, exp)


def decoding(w, nc, lengths, alg):
    m, sp, tm, fp, X = abstract_model(w, nc, sum(lengths), algorithm=alg)
    subs = split(fp, lengths)
    L = list(lengths)
    lp, path = m.decode(X, L)
    w.true("one state per sample", len(path) == sum(lengths))
    path = [int(x) for x in path]
    i, acc = 0, w.num(0)
    for f, n in zip(subs, lengths):
        z = path[i:i + n]
        if alg == "viterbi":
            acc = acc + w.log(joint(sp, tm, f, z))
            for o in paths(nc, n):
                w.true("each sequence is decoded on its own",
                       w.le(joint(sp, tm, f, o), joint(sp, tm, f, z)))
        else:
            po = posterior(w, sp, tm, f)
            for t in range(n):
                acc = acc + po[t][z[t]]
                for k in range(nc):
                    w.true("each sequence is decoded on its own",
                           w.le(po[t][k], po[t][z[t]]))
        i += n
    w.eq("decode log_prob is the sum over sequences", lp, acc)


def counts(w, nc, lengths, impl):
    """one training step with flat priors: normalised expected counts."""
    m, sp, tm, fp, X = abstract_model(w, nc, sum(lengths), params="st",
                                      init_params="", n_iter=1,
                                      implementation=impl)
    subs = split(fp, lengths)
    try:
        m.fit(X, as_lengths(w, lengths))
    except ValueError:
        if impl == "log":
            raise
        return
    w.eq("objective", m.monitor_.history[0],
         summed(w.log(total(w, sp, tm, f)) for f in subs))
    start = summed(posterior(w, sp, tm, f)[0] for f in subs)
    w.eq("start counts", m.startprob_, start / len(lengths))
    trans = [pairwise(w, sp, tm, f) for f in subs if len(f) > 1]
    if not trans:
        w.eq("no transition is counted", m.transmat_, np.zeros((nc, nc)))
        return
    trans = summed(trans)
    w.eq("transition counts never cross a boundary", m.transmat_,
         [[x / summed(r) for x in r] for r in trans])


def bad(w, nc, n, lengths, op):
    m, sp, tm, fp, X = abstract_model(w, nc, n)
    m.n_iter = 1
    m.params = m.init_params = ""
    w.raises(f"{op} with lengths {lengths} for {n} samples", ValueError,
             getattr(m, op), X, list(lengths))


def larger(w, nc, lengths, impl, free):
    """many sequences."""
    n = sum(lengths)
    m, sp, tm, fp, X = large_model(w, nc, n, free=free, implementation=impl,
                                   params="st", init_params="", n_iter=1)
    L = np.array(lengths)
    post, logs = [], w.num(0)
    start = [w.num(0)] * nc
    trans = [[w.num(0)] * nc for _ in range(nc)]
    for fr in split(fp, lengths):
        f, b, tot = chain(w, sp, tm, fr)
        logs = logs + w.log(tot)
        post += [[f[t][i] * b[t][i] / tot for i in range(nc)]
                 for t in range(len(fr))]
        for i in range(nc):
            start[i] = start[i] + f[0][i] * b[0][i] / tot
            for j in range(nc):
                for t in range(len(fr) - 1):
                    trans[i][j] = trans[i][j] + f[t][i] * tm[i][j] \
                        * fr[t + 1][j] * b[t + 1][j] / tot
    try:
        lp, po = m.score_samples(X, L)
        m.fit(X, L)
    except ValueError:
        if impl == "log":
            raise
        return
    w.eq("score_samples log_prob", lp, logs)
    w.eq("posteriors are per sequence", po,
         w.asarray(np.array(post, dtype=object)))
    w.eq("objective", m.monitor_.history[0], logs)
    w.eq("start counts", m.startprob_, [x / len(lengths) for x in start])
    w.eq("transition counts never cross a boundary", m.transmat_,
         [[x / summed(r) for x in r] for r in trans])


def harnesses(tier):
    hs = []
    for nc, ls in [(2, (1, 3, 1, 2, 4)), (4, (2, 1, 3)),
                   (2, (2,) * 9)] + (
            [(2, (4, 1, 9, 2, 1, 6)), (3, (1,) * 6 + (3,) * 4),
             (6, (3, 2))] if tier == "thorough" else []):
        for impl in ("log", "scaling"):
            nm = "+".join(map(str, ls))
            hs.append(Harness(
                f"larger-{impl}-{nc}-{nm}", larger,
                dict(nc=nc, lengths=ls, impl=impl, free=2), cost=60,
                bound=f"n_components={nc}, sequences of {ls} samples, two "
                "arbitrary positive emission probabilities, everything else "
                "fixed"))
    top = 3 if tier == "quick" else 4
    for n in range(1, top + 1):
        for ls in compositions(n):
            nm = "+".join(map(str, ls))
            for impl in ("log", "scaling"):
                hs.append(Harness(
                    f"score-{impl}-{nm}", scoring,
                    dict(nc=2, lengths=ls, impl=impl,
                         pattern=("full",) if tier == "quick" else
                         ("full", "zero")), cost=2 ** n,
                    bound=f"n_components=2, all splits of up to {top} "
                    "samples into sequences"))
                hs.append(Harness(
                    f"counts-{impl}-{nm}", counts,
                    dict(nc=2, lengths=ls, impl=impl), cost=2 ** n,
                    bound=f"n_components=2, all splits of up to {top} "
                    "samples into sequences"))
            if n <= (2 if tier == "quick" else 3):
                for alg in ("viterbi", "map"):
                    hs.append(Harness(
                        f"decode-{alg}-{nm}", decoding,
                        dict(nc=2, lengths=ls, alg=alg), cost=3 ** n))
    for n, ls in [(3, (2, 2)), (3, (2,)), (3, (1, 1)), (2, (3,)),
                  (2, (2, 0)), (2, (0, 2)), (3, (4, -1)), (2, (1, 0, 1)),
                  (3, (-1, 4)), (3, (2, -1, 2)), (2, (0, 0))]:
        for op in ("score", "score_samples", "decode", "predict",
                   "predict_proba", "fit"):
            hs.append(Harness(
                f"reject-{op}-{n}-{'_'.join(map(str, ls))}", bad,
                dict(nc=2, n=n, lengths=ls, op=op), cost=.1,
                bound="lengths that do not partition the samples into "
                "non-empty sequences"))
    return hs
