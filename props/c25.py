"""C25 stationary distribution."""
import numpy as np
from symx import npshim as N
from symx.runner import Harness
from symx.poly import Unsupported

ASSUMPTIONS = [
    "scipy.linalg.eig is replaced by its contract for these matrices: the "
    "eigenvalues in an arbitrary order, each eigenvector scaled by an "
    "arbitrary non-zero real (complex pairs: any other eigenvector); the "
    "concrete replays use the real one",
    "real arithmetic; rows of three states have the stated zero patterns; "
    "transition matrices with a unique stationary distribution",
]
STATE = {}


def tree(a):
    """unnormalised stationary vector (Markov chain tree theorem)."""
    n = len(a)
    if n == 1:
        return [N.V.of(1)]
    if n == 2:
        return [a[1][0], a[0][1]]

    def s(i):
        j, k = [x for x in range(3) if x != i]
        return a[j][i] * a[k][i] + a[j][k] * a[k][i] + a[k][j] * a[j][i]
    return [s(i) for i in range(3)]


def eig(m, b=None, left=False, right=True, **kw):
    """contract of scipy.linalg.eig for m or its transpose stochastic."""
    w = STATE["w"]
    m = N.cells(m)
    n = len(m)
    a = STATE["a"]

    def matches(x, y):
        return all(N.P.same(N.V.of(x[i][j]), N.V.of(y[i][j]))
                   for i in range(n) for j in range(n))
    if matches(m, np.asarray(a).T):
        rv, lv = STATE["left"], STATE["right"]
    elif matches(m, a):
        rv, lv = STATE["right"], STATE["left"]
    else:
        raise Unsupported("eig of another matrix")
    order = w.pick(STATE["orders"])
    ev = N.cells(np.array([STATE["vals"][i] for i in order], dtype=object))

    def pack(vs):
        out = np.empty((n, n), dtype=object)
        for c, i in enumerate(order):
            for r in range(n):
                out[r, c] = vs[i][r] * STATE["scale"][i]
        return out.view(N.SA)
    if left and right:
        return ev, pack(lv), pack(rv)
    if left:
        return ev, pack(lv)
    if not right:
        return ev
    return ev, pack(rv)


def eigvals(m, **kw):
    return eig(m)[0]


def setup(w, a, nc):
    """eigenvalues / eigenvectors of the stochastic matrix a."""
    if not w.symbolic:
        return
    one = N.V.of(1)
    scale = []
    for i in range(nc):
        s = w.pos(f"scale{i}")
        scale.append(s if w.choose(2) == 0 or i else -s)
    pi = tree(a)
    if nc == 1:
        vals, left, right = [one], [[one]], [[one]]
    elif nc == 2:
        lam = 1 - a[0][1] - a[1][0]
        vals = [one, lam]
        left = [pi, [one, -one]]
        right = [[one, one], [a[0][1], -a[1][0]]]
    else:
        # the other two: real and smaller than one, eigenvectors orthogonal
        # to the dual one of eigenvalue one, else arbitrary
        l2, l3 = w.real("l2", hi=.999), w.real("l3", hi=.999)
        u, v = w.reals("u", 2), w.reals("v", 2)
        g, h = w.reals("g", 2), w.reals("h", 2)
        vals = [one, l2, l3]
        left = [pi, [u[0], u[1], -u[0] - u[1]], [v[0], v[1], -v[0] - v[1]]]
        right = [[one] * 3, [g[0], g[1], w.num(0)], [h[0], h[1], w.num(0)]]
    STATE.update(w=w, a=a, vals=vals, left=left, right=right, scale=scale,
                 orders=[(0,)] if nc == 1 else [(0, 1), (1, 0)] if nc == 2
                 else [(0, 1, 2), (1, 0, 2), (2, 1, 0)])


def stationary(w, nc, support, cls="BaseHMM"):
    B = getattr(w.mod("base" if cls == "BaseHMM" else "hmm"), cls)
    m = B(n_components=nc)
    m.startprob_ = w.asarray([1.] + [0.] * (nc - 1))
    a = w.stochastic("a", nc, support=support)
    m.transmat_ = a
    setup(w, a, nc)
    p = m.get_stationary_distribution()
    w.eq("shape", np.array(np.shape(p)), np.array([nc]))
    tot = w.num(0)
    for i in range(nc):
        w.true(f"non-negative[{i}]", w.le(w.num(0), p[i]))
        tot = tot + p[i]
    w.eq("sums to one", tot, w.num(1))
    for j in range(nc):
        s = w.num(0)
        for i in range(nc):
            s = s + p[i] * a[i][j]
        w.eq(f"invariant[{j}]", s, p[j])


OVER = {"linalg": {"eig": eig, "eigvals": eigvals},
        "nplinalg": {"eig": eig, "eigvals": eigvals}}


def harnesses(tier):
    hs = []
    pats = [(1, [[0]]), (2, [[0, 1], [0, 1]]), (2, [[1], [0, 1]]),
            (2, [[0], [0, 1]]), (2, [[1], [0]]),
            (3, [[0, 1, 2]] * 3), (3, [[1], [2], [0]]),
            (3, [[0, 1], [1, 2], [0, 2]]), (3, [[0, 1], [1], [0, 2]]),
            (3, [[0, 1], [0, 1], [0, 1, 2]])]
    if tier != "quick":
        import itertools
        sub = [[0], [1], [2], [0, 1], [0, 2], [1, 2], [0, 1, 2]]
        for t in itertools.product(sub, repeat=3):
            # one closed class only
            reach = [{i} for i in range(3)]
            for _ in range(3):
                for i in range(3):
                    for j in list(reach[i]):
                        reach[i] |= set(t[j])
            if any(all(j in reach[i] for i in range(3)) for j in range(3)):
                pats.append((3, [list(x) for x in t]))
    seen = set()
    for nc, sup in pats:
        nm = "-".join("".join(map(str, s)) for s in sup)
        if nm in seen:
            continue
        seen.add(nm)
        hs.append(Harness(f"stationary-{nm}", stationary,
                          dict(nc=nc, support=sup), overrides=OVER,
                          kernel=None, bound=f"{nc} states, allowed "
                          f"transitions {sup}"))
    hs.append(Harness("categorical", stationary, dict(
        nc=2, support=[[0, 1], [0, 1]], cls="CategoricalHMM"),
        overrides=OVER, kernel=None, bound="2 states"))
    return hs
