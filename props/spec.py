"""independent definitions, by enumeration of state paths."""
import itertools

import numpy as np

__all__ = ["paths", "joint", "total", "summed", "posterior", "pairwise"]


def paths(nc, ns):
    return itertools.product(range(nc), repeat=ns)


def joint(sp, tm, fp, z):
    """probability of state path z and the observations."""
    x = sp[z[0]] * fp[0][z[0]]
    for t in range(1, len(z)):
        x = x * tm[z[t - 1]][z[t]] * fp[t][z[t]]
    return x


def summed(xs):
    xs = list(xs)
    s = xs[0]
    for x in xs[1:]:
        s = s + x
    return s


MANY = 100      # so many paths are not enumerated


def chain(w, sp, tm, fp):
    """(forward masses, backward masses, total), the sums over the paths
    taken out of the products."""
    nc, n = len(sp), len(fp)
    f = [[sp[i] * fp[0][i] for i in range(nc)]]
    for t in range(1, n):
        f.append([summed(f[-1][i] * tm[i][j] for i in range(nc)) * fp[t][j]
                  for j in range(nc)])
    b = [[w.num(1)] * nc]
    for t in range(n - 1, 0, -1):
        b.insert(0, [summed(tm[i][j] * fp[t][j] * b[0][j]
                            for j in range(nc)) for i in range(nc)])
    return f, b, summed(f[-1])


def total(w, sp, tm, fp):
    nc, ns = len(sp), len(fp)
    if nc ** ns > MANY:
        return chain(w, sp, tm, fp)[2]
    return summed(joint(sp, tm, fp, z) for z in paths(nc, ns))


def posterior(w, sp, tm, fp):
    """P(state at t = i | observations)."""
    nc, ns = len(sp), len(fp)
    if nc ** ns > MANY:
        f, b, tot = chain(w, sp, tm, fp)
        return w.asarray(np.array(
            [[f[t][i] * b[t][i] / tot for i in range(nc)]
             for t in range(ns)], dtype=object))
    tot = total(w, sp, tm, fp)
    out = np.empty((ns, nc), dtype=object)
    for t in range(ns):
        for i in range(nc):
            out[t, i] = summed(joint(sp, tm, fp, z)
                               for z in paths(nc, ns) if z[t] == i) / tot
    return w.asarray(out)


def pairwise(w, sp, tm, fp):
    """expected number of i->j transitions given the observations."""
    nc, ns = len(sp), len(fp)
    if nc ** ns > MANY:
        f, b, tot = chain(w, sp, tm, fp)
        return w.asarray(np.array(
            [[summed(f[t][i] * tm[i][j] * fp[t + 1][j] * b[t + 1][j]
                     for t in range(ns - 1)) / tot for j in range(nc)]
             for i in range(nc)], dtype=object))
    tot = total(w, sp, tm, fp)
    out = np.empty((nc, nc), dtype=object)
    for i in range(nc):
        for j in range(nc):
            xs = [joint(sp, tm, fp, z) for z in paths(nc, ns)
                  for t in range(ns - 1) if z[t] == i and z[t + 1] == j]
            out[i, j] = (summed(xs) / tot) if xs else w.num(0)
    return w.asarray(out)
