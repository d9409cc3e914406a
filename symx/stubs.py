"""stand-ins for library routines whose result is only constrained by their
contract; the same harness uses the real routine in concrete runs."""
import numpy as np

from . import npshim as N
from .poly import Unsupported

WORLD = [None]      # the world of the running harness, if it wants to steer


class KMeans:
    """labels are i mod k (or the harness's), centres arbitrary reals (or the
    harness's); both of the documented shapes."""

    count = 0
    log = []

    def __init__(self, n_clusters=8, *, random_state=None, n_init="auto",
                 **kw):
        self.n_clusters = n_clusters
        self.random_state = random_state
        self.n_init = n_init

    def fit(self, X, y=None, sample_weight=None):
        X = N.cells(np.asarray(X))
        n = len(X)
        if n < self.n_clusters:
            raise ValueError(f"n_samples={n} should be >= "
                             f"n_clusters={self.n_clusters}.")
        w = WORLD[0]
        KMeans.count += 1
        self.data = X
        if w is None:
            self.labels_ = np.array([i % self.n_clusters for i in range(n)])
            self.cluster_centers_ = N.cells(np.array(
                [X[i] for i in range(self.n_clusters)], dtype=object))
        else:
            tag = f"km{KMeans.count}"
            self.labels_ = np.array(w.labels(n, self.n_clusters))
            self.cluster_centers_ = w.reals(tag, self.n_clusters, X.shape[1])
        KMeans.log.append(self)
        return self

    def predict(self, X):
        if len(X) != len(self.data):
            raise Unsupported("KMeans.predict on new data")
        return self.labels_

    def fit_predict(self, X, y=None, sample_weight=None):
        return self.fit(X).labels_


class _Replay:
    """the world, except that a seed's discrete draws are made once."""

    def __init__(self, world, seed):
        self._world, self._seed, self._n = world, seed, 0

    def choose(self, n):
        self._n += 1
        key = self._seed, self._n, n
        if key not in CHOSEN:
            CHOSEN[key] = self._world.choose(n)
        return CHOSEN[key]

    def __getattr__(self, k):
        return getattr(self._world, k)


CHOSEN = {}


def check_random_state(seed):
    """an integer seed names a generator: asked again, it draws the same."""
    if isinstance(seed, int) and WORLD[0] is not None:
        r = WORLD[0].random(f"seed{seed}x")
        r.world = _Replay(WORLD[0], seed)
        return r
    return N.check_random_state(seed)


def reset(world=None):
    WORLD[0] = world
    CHOSEN.clear()
    KMeans.count = 0
    KMeans.log = []


CLUSTER = {"cluster": {"KMeans": KMeans}}
SEEDED = {"validation": {"check_random_state": check_random_state}}
