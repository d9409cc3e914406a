"""Joining the results of explored sub-problems (functions, kernels)."""
from . import poly as P
from .poly import V


DEBUG = False


def _under(eng, pcs, fn):
    s = eng.snapshot()
    try:
        for c in pcs:
            eng.add(c)
        return fn()
    finally:
        eng.restore(s)


def struct_same(a, b):
    if type(a) is V and type(b) is V:
        return (a.special == b.special and a.R == b.R and a.L == b.L
                and a.lc == b.lc)
    return type(a) is type(b) and a == b


def agree(eng, pcs, vs, ws):
    """vs == ws elementwise on the paths satisfying pcs (solver-decided)."""
    todo = []
    for v, w in zip(vs, ws):
        if struct_same(v, w):
            continue
        if type(v) is not V or type(w) is not V:
            return False
        todo.append((v, w))
    if not todo:
        return True

    def go():
        for v, w in todo:
            r, _ = eng.prove_eq(v, w)
            if r != "proved":
                if DEBUG:
                    print("DISAGREE", r, v, w, eng.simp_zero(v),
                          eng.simp_zero(w), eng.signs, eng.zero_monos)
                return False
        return True
    o, d = eng.stats.obligations, eng.stats.discharged
    try:
        return _under(eng, pcs, go)
    except P.Unsupported:
        return False
    finally:
        eng.stats.obligations, eng.stats.discharged = o, d


def weight(vs):
    n = 0
    for v in vs:
        if type(v) is V:
            n += -5 if v.special else len(v.R) + len(v.L) + 20 * sum(
                len(P.ATOMS[a].defn) for a in v.L
                if P.ATOMS[a].kind == "let")
    return n


def group(eng, outs):
    """outs: [(pc, key, [values])] -> [(key, values, [pc, ...])].

    Results are joined when one of them equals the other on the other's own
    path condition."""
    order = sorted(range(len(outs)), key=lambda i: -weight(outs[i][2]))
    groups = []
    for i in order:
        pc, key, vals = outs[i]
        for g in groups:
            if g[0] == key and len(g[1]) == len(vals) and \
                    agree(eng, pc, g[1], vals):
                g[2].append(pc)
                break
        else:
            groups.append((key, vals, [pc]))
    # the remaining representatives may still be the more general ones
    i = len(groups) - 1
    while i > 0:
        key, vals, pcs = groups[i]
        for j, g in enumerate(groups):
            if j != i and g[0] == key and len(g[1]) == len(vals) and \
                    len(g[2]) <= 12 and \
                    all(agree(eng, pc, vals, g[1]) for pc in g[2]):
                groups[i] = (key, vals, pcs + g[2])
                del groups[j]
                break
        i -= 1
    eng.stats.merges += len(outs) - len(groups)
    if DEBUG and len(groups) > 1:
        print("GROUPS")
        for g in groups:
            print("   ", g[0], g[1], "PC", g[2])
    return groups


def pick(eng, groups):
    """fork over the groups; adds the chosen group's condition."""
    if len(groups) == 1:
        return groups[0]
    k = eng.choose_cond([P.cond_or(*[P.cond_and(*pc) for pc in g[2]])
                         for g in groups])
    return groups[k]


def join_scalar(eng, outs):
    g = pick(eng, group(eng, [(pc, type(v) is V, [v]) for pc, v in outs]))
    return g[1][0]
