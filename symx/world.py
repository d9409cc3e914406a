"""The world a harness runs in: symbolic (values are V, kernels are executed
from LLVM IR) or concrete (values are doubles, hmmlearn is the real build)."""
from fractions import Fraction
import itertools
import logging
import math
import re
import traceback
import warnings
import zlib

import numpy as np
import scipy.special

from . import poly as P
from . import npshim as N
from .poly import V, Unsupported


class Skip(Exception):
    """concrete point outside the harness's assumptions."""


class Obl:
    __slots__ = ("label", "status", "cands")

    def __init__(self, label, status, cands):
        self.label, self.status, self.cands = label, status, cands


_PRIMES = (29, 43, 31, 59, 37, 67, 41, 73, 47, 61, 53, 71, 23, 79, 19, 83)


def fixed(name, kind, lo=None, hi=None):
    """the value of a variable that is not arbitrary in a `keep` harness."""
    h = zlib.crc32(name.encode())
    x = Fraction(_PRIMES[h % 16] + 90 * (h // 16 % 2), 128)
    if kind == "int":
        return 1 + h % int(hi)
    if kind == "real":
        x = -x if h // 32 % 2 else x
    if lo is not None and hi is not None:
        return Fraction(lo) + (Fraction(hi) - Fraction(lo)) * abs(x) / 2
    if lo is not None:
        return Fraction(lo) + abs(x)
    if hi is not None:
        return Fraction(hi) * abs(x) / 2 if kind != "real" else \
            Fraction(hi) - abs(x)
    return x


class World:
    symbolic = False
    keep = None         # names (regular expression) that stay arbitrary

    def _fixed(self, name, kind, lo=None, hi=None):
        """None: arbitrary."""
        if self.keep is None or re.fullmatch(self.keep, name):
            return None
        x = fixed(name, kind, lo, hi)
        return x if kind == "int" else self.num(x)

    def _fixed_simplex(self, name, n, support, normal):
        if self.keep is None:
            return None
        ix = [i for i in range(n) if support is None or i in support]
        if any(re.fullmatch(self.keep, f"{name}{i}") for i in ix):
            return None
        x = {i: fixed(f"{name}{i}", "pos") for i in ix}
        s = sum(x.values()) if normal else 1
        return self.asarray(np.array(
            [self.num(x[i] / s if i in x else 0) for i in range(n)],
            dtype=object))

    def __init__(self):
        self.choices = []
        self.obls = []
        self.observed = []

    # ---- choices
    def pick(self, seq, label=None):
        seq = list(seq)
        return seq[self.choose(len(seq))]

    def labels(self, n, k):
        """an arbitrary assignment of n items to k non-empty classes."""
        out = []
        for i in range(n):
            out.append(self.choose(k))
        return out

    # ---- arrays
    def arr(self, shape, f):
        a = np.empty(shape, dtype=object)
        for ix in np.ndindex(*a.shape):
            a[ix] = f(*ix)
        return self.asarray(a)

    def reals(self, name, *shape, **k):
        return self.arr(shape, lambda *ix: self.real(
            name + "_".join(map(str, ix)), **k))

    def poss(self, name, *shape, **k):
        return self.arr(shape, lambda *ix: self.pos(
            name + "_".join(map(str, ix)), **k))

    def nonnegs(self, name, *shape, **k):
        return self.arr(shape, lambda *ix: self.nonneg(
            name + "_".join(map(str, ix)), **k))

    def simplex(self, name, n, support=None, normal=True):
        """n probabilities; support = indices allowed to be non-zero (those
        are strictly positive), None: each may be zero."""
        if n == 1 and normal:
            return self.asarray(np.array([1.]))
        return self._simplex(name, n, support, normal)

    def stochastic(self, name, n, m=None, support=None, normal=True):
        m = n if m is None else m
        rows = [self.simplex(f"{name}{i}_", m,
                             None if support is None else support[i], normal)
                for i in range(n)]
        return self.asarray(np.array([list(r) for r in rows], dtype=object))

    def pattern(self, n, m=None, kinds=("full", "zero")):
        """a choice of zero patterns for an n x m stochastic matrix."""
        m = n if m is None else m
        k = self.pick(kinds)
        sup = [list(range(m)) for _ in range(n)]
        if k == "full" or m == 1:
            return sup
        if k == "zero":        # one forbidden transition per row, rotating
            for i in range(n):
                sup[i] = [j for j in range(m) if j != (i + 1) % m]
        elif k == "one":
            i = self.choose(n)
            j = self.choose(m)
            sup[i] = [x for x in range(m) if x != j]
        elif k == "ident":
            for i in range(n):
                sup[i] = [i % m]
        return sup

    # ---- checks
    def eq(self, label, a, b, **k):
        """elementwise equality of a and b (shape included)."""
        a, b = self._prep(a), self._prep(b)
        if a.shape != b.shape:
            self.fail(f"{label}: shape {a.shape} != {b.shape}")
            return
        for ix in np.ndindex(*a.shape):
            nm = f"{label}{list(ix) if ix else ''}"
            self.eq1(nm, a[ix], b[ix], **k)

    def true_all(self, label, conds):
        for i, c in enumerate(conds):
            self.true(f"{label}[{i}]", c)

    def raises(self, label, exc, f, *a, **k):
        try:
            f(*a, **k)
        except exc:
            self.true(label, True)
            return True
        except Exception as e:   # noqa
            if type(e).__name__ in _CONTROL:
                raise
            self.fail(f"{label}: raised {type(e).__name__} instead of "
                      f"{exc}")
            return False
        self.fail(f"{label}: no exception")
        return False

    def paths(self, nc, ns):
        return itertools.product(range(nc), repeat=ns)


_CONTROL = {"Infeasible", "Budget", "Inconclusive", "Unsupported", "Skip",
            "MergeFail", "MemViolation", "GilViolation", "NanResult",
            "KernelError", "UnsupportedIR"}


class SymWorld(World):
    symbolic = True

    def __init__(self, eng, package, bridge):
        super().__init__()
        self.eng = eng
        self.pkg = package
        self.k = bridge
        self.rec = []

    def mod(self, name):
        return self.pkg.module(name)

    # choices are decided by the engine and remembered for the replay
    def choose(self, n, label=None):
        k = self.eng.choose(n)
        self.choices.append(k)
        return k

    def real(self, name, sampler=None, lo=None, hi=None):
        v = self._fixed(name, "real", lo, hi)
        if v is not None:
            return v
        v = self.eng.declare(name, "real", None, sampler or _range(lo, hi))
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def pos(self, name, sampler=None, hi=None):
        v = self._fixed(name, "pos", None, hi)
        if v is not None:
            return v
        v = self.eng.declare(name, "pos", None, sampler or _range(1e-3, hi))
        if hi is not None:
            self.assume(v <= hi)
        return v

    def posint(self, name, hi=6):
        """an arbitrary positive integer."""
        v = self._fixed(name, "int", 1, hi)
        if v is not None:
            return v
        v = self.eng.declare("#" + name, "pos", None,
                             lambda r, s: r.randint(1, hi))
        self.assume(v >= 1)
        return v

    def nonneg(self, name, sampler=None, hi=None):
        v = self._fixed(name, "pos", None, hi)
        if v is not None:
            return v
        v = self.eng.declare(name, "nonneg", None, sampler or _range(0, hi))
        if hi is not None:
            self.assume(v <= hi)
        return v

    def _simplex(self, name, n, support, normal):
        if support is not None and len(support) == 1 and normal:
            return self.asarray([1. if i in support else 0.
                                 for i in range(n)])
        v = self._fixed_simplex(name, n, support, normal)
        if v is not None:
            return v
        names = [f"{name}{i}" for i in range(n)
                 if support is None or i in support]
        sign = "nonneg" if support is None else "pos"
        if normal:
            new = names[0] not in self.eng.vars
            vs = [self.eng.declare(x, sign, name) for x in names]
            if new:
                self.eng.groups[name] = names
            s = vs[0]
            for v in vs[1:]:
                s = s + v
            c = P.atomic("eq", s.R, P.ONE)
            self.eng.add(c)
        else:
            vs = [self.eng.declare(x, sign) for x in names]
        it = iter(vs)
        return self.asarray(np.array(
            [next(it) if support is None or i in support else P.V0
             for i in range(n)], dtype=object))

    def asarray(self, a):
        return N.cells(np.asarray(a))

    def assume(self, c):
        if isinstance(c, (bool, np.bool_)):
            if not c:
                self.eng.assume(False)
            return
        self.eng.assume(c)

    exp = staticmethod(lambda x: N.UF["exp"](x))
    log = staticmethod(lambda x: N.UF["log"](x))
    sqrt = staticmethod(lambda x: N.UF["sqrt"](x))
    digamma = staticmethod(lambda x: N.SPECIAL["digamma"](x))
    gammaln = staticmethod(lambda x: N.SPECIAL["gammaln"](x))

    @property
    def pi(self):
        return P.vpi()

    def num(self, x):
        return V.of(x)

    def generic(self, c):
        """concrete runs only: skip points on a discontinuity."""

    def is0(self, x):
        """is x zero by construction (never forks)?"""
        x = V.of(x)
        return x.is_const and x.const == 0

    def maximum(self, a, b):
        return N.UF["maximum"](a, b)

    def lt(self, a, b):
        return P.cmp_lt(a, b)

    def le(self, a, b):
        return P.cmp_le(a, b)

    def and_(self, *c):
        return P.cond_and(*c)

    def or_(self, *c):
        return P.cond_or(*c)

    def not_(self, c):
        return P.cond_not(c)

    def equal(self, a, b):
        return P.cmp_eq(V.of(a), V.of(b))

    def isfinite(self, x):
        return N.UF["isfinite"](x)

    def _prep(self, a):
        return N.cells(np.asarray(a))

    def eq1(self, label, a, b, tol=None):
        a, b = V.of(a), V.of(b)
        st, c = self.eng.prove_eq(a, b)
        self.obls.append(Obl(label, st, self._pts(c)))

    def true(self, label, c):
        st, cc = self.eng.prove(c)
        self.obls.append(Obl(label, st, self._pts(cc)))

    def differ(self, pairs):
        """is there a point on this path where a pair differs?"""
        from .engine import num_close
        pts = list(self.eng.sample_points())
        for a, b in pairs:
            a, b = V.of(a), V.of(b)
            if a.special or b.special:
                if a.special != b.special:
                    return True
                continue
            if any(not num_close(p.value(a), p.value(b)) for p in pts):
                return True
        n = self.eng.stats.obligations, self.eng.stats.discharged
        try:
            return any(self.eng.prove_eq(V.of(a), V.of(b))[0] != "proved"
                       for a, b in pairs)
        finally:
            self.eng.stats.obligations, self.eng.stats.discharged = n

    def fail(self, label):
        self.eng.stats.obligations += 1
        self.obls.append(Obl(label, "refuted", self._pts(
            self.eng.sample_points()[:3])))

    def _pts(self, cands):
        out = []
        if any(c is None for c in cands) or not cands:
            cands = [c for c in cands if c is not None] + \
                list(self.eng.sample_points()[:4])
        for c in cands[:6]:
            if hasattr(c.point, "full"):
                out.append(c.point.full())
            else:
                out.append(dict(c.point))
        return out

    def watch(self, f):
        """f(function, argument, result) sees every exponential and logarithm
        the code takes (None: no more)."""
        P.WATCH = f

    def random(self, tag="u", zero=True):
        """zero: may uniform draws be exactly zero?"""
        return SymRandom(self, tag, zero)


def _range(lo, hi):
    if lo is None and hi is None:
        return None
    a = -3. if lo is None else lo
    b = max(a + 3., 3.) if hi is None else hi

    def s(r, style):
        return r.uniform(a, b)
    return s


class ConWorld(World):
    """same harness, real build, one point."""

    def __init__(self, real, point, choices):
        super().__init__()
        self.realmods = real
        self.point = point
        self._choices = list(choices)
        self.failures = []
        self.checked = 0

    @property
    def k(self):
        return self.realmods("_hmmc")

    def mod(self, name):
        return self.realmods(name)

    def choose(self, n, label=None):
        k = self._choices.pop(0) if self._choices else 0
        self.choices.append(k)
        return min(k, n - 1)

    def _get(self, name):
        try:
            return float(self.point[name])
        except (OverflowError, KeyError):
            raise Skip(name)        # (KeyError: a path cut off before it)

    def real(self, name, sampler=None, lo=None, hi=None):
        v = self._fixed(name, "real", lo, hi)
        if v is not None:
            return v
        v = self._get(name)
        if (lo is not None and v < lo - 1e-12) or \
                (hi is not None and v > hi + 1e-12):
            raise Skip(name)
        return v

    def pos(self, name, sampler=None, hi=None):
        v = self._fixed(name, "pos", None, hi)
        if v is not None:
            return v
        v = self._get(name)
        if not v > 0 or (hi is not None and v > hi + 1e-12):
            raise Skip(name)
        return v

    def posint(self, name, hi=6):
        v = self._fixed(name, "int", 1, hi)
        if v is not None:
            return v
        v = self._get("#" + name)
        if v < 1 or v != int(v):
            raise Skip(name)
        return int(v)

    def nonneg(self, name, sampler=None, hi=None):
        v = self._fixed(name, "pos", None, hi)
        if v is not None:
            return v
        v = self._get(name)
        if v < 0 or (hi is not None and v > hi + 1e-12):
            raise Skip(name)
        return v

    def _simplex(self, name, n, support, normal):
        if support is not None and len(support) == 1 and normal:
            return np.array([1. if i in support else 0. for i in range(n)])
        p = self._fixed_simplex(name, n, support, normal)
        if p is not None:
            return p
        p = np.array([self._get(f"{name}{i}")
                      if support is None or i in support else 0.
                      for i in range(n)])
        if (p < 0).any():
            raise Skip(name)
        if normal:
            s = p.sum()
            if not abs(s - 1) < 1e-6:
                raise Skip(name)
            p = p / s
        return p

    def asarray(self, a):
        a = np.asarray(a)
        return a.astype(float) if a.dtype == object else np.array(a)

    def assume(self, c):
        if not bool(c):
            raise Skip("assumption")

    @staticmethod
    def exp(x):
        with np.errstate(all="ignore"):
            return np.exp(x)

    @staticmethod
    def log(x):
        with np.errstate(all="ignore"):
            return np.log(x)

    @staticmethod
    def sqrt(x):
        return np.sqrt(x)

    digamma = staticmethod(scipy.special.digamma)
    gammaln = staticmethod(scipy.special.gammaln)
    pi = math.pi

    def num(self, x):
        return float(x)

    maximum = staticmethod(np.maximum)

    def generic(self, c):
        if not bool(c):
            raise Skip("rounding decides")

    @staticmethod
    def is0(x):
        return x == 0

    def lt(self, a, b):
        return bool(a < b + 1e-7 * (abs(a) + abs(b)) + 1e-9)

    def le(self, a, b):
        return bool(a <= b + 1e-7 * (abs(a) + abs(b)) + 1e-9) or \
            bool(a == b)

    def and_(self, *c):
        return all(c)

    def or_(self, *c):
        return any(c)

    def not_(self, c):
        return not c

    def equal(self, a, b):
        return _close(float(a), float(b))

    def isfinite(self, x):
        return np.isfinite(x)

    def _prep(self, a):
        return np.asarray(a)

    def eq1(self, label, a, b, tol=None):
        self.checked += 1
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            if not (a is b or a == b):
                self.fail(f"{label}: {a!r} vs {b!r}")
            return
        if not _close(a, b, tol or 1e-6):
            self.failures.append(f"{label}: got {a!r}, expected {b!r}")

    def true(self, label, c):
        self.checked += 1
        if not bool(c):
            self.failures.append(f"{label}: violated")

    def fail(self, label):
        self.checked += 1
        self.failures.append(label)

    def watch(self, f):
        pass

    def random(self, tag="u", zero=True):
        return ConRandom(self, tag, zero)


def _close(a, b, rtol=1e-6, atol=1e-9):
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


class _Rand:
    """generator whose uniforms / normals are the world's variables."""
    _symx_random = True

    def __init__(self, world, tag, zero=True):
        self.world = world
        self.tag = tag
        self.zero = zero
        self.n = 0
        self.calls = []

    def _u(self):
        self.n += 1
        v = (self.world.nonneg if self.zero else self.world.pos)(
            f"{self.tag}{self.n}", sampler=lambda r, s: r.random() or .5)
        self.world.assume(self.world.lt(v, self.world.num(1))
                          if self.world.symbolic else v < 1)
        return v

    def rand(self, *shape):
        if not shape:
            v = self._u()
            self.calls.append(("rand", v))
            return v
        a = self.world.arr(shape, lambda *ix: self._u())
        self.calls.append(("rand", a))
        return a

    def random_sample(self, size=None):
        if size is None:
            return self.rand()
        return self.rand(*(size if isinstance(size, tuple) else (size,)))

    random = random_sample

    def uniform(self, low=0., high=1., size=None):
        return low + (high - low) * self.random_sample(size)

    def multivariate_normal(self, mean, cov, size=None):
        mean = self.world.asarray(mean)
        cov = self.world.asarray(cov)
        self.calls.append(("multivariate_normal", mean, cov, size))
        n = len(mean)
        self.n += 1
        if size is not None:
            size = size if isinstance(size, tuple) else (size,)
            return self.world.reals(f"{self.tag}{self.n}n", *size, n)
        return self.world.reals(f"{self.tag}{self.n}n", n)

    def choice(self, a, size=None, replace=True, p=None):
        self.calls.append(("choice", a, size, p))
        n = a if isinstance(a, (int, np.integer)) else len(a)
        k = self.world.choose(int(n))
        return k if isinstance(a, (int, np.integer)) else a[k]

    def poisson(self, lam=1., size=None):
        self.calls.append(("poisson", lam))
        self.k = getattr(self, "k", 0) + 1
        n = int(np.prod(np.shape(lam)))
        return np.arange(self.k, self.k + n).reshape(np.shape(lam)) \
            if np.shape(lam) else self.k

    def multinomial(self, n, pvals, size=None):
        self.calls.append(("multinomial", n, pvals, size))
        r = np.zeros(np.shape(pvals), dtype=int)
        r.reshape(-1)[self.world.choose(r.size)] = int(n)
        return r

    def dirichlet(self, alpha, size=None):
        self.calls.append(("dirichlet", np.asarray(alpha), size))
        n = len(alpha)
        self.n += 1
        if size is None:
            return self.world.simplex(f"{self.tag}{self.n}d", n,
                                      list(range(n)))
        if isinstance(size, tuple):
            (size,) = size
        return self.world.stochastic(f"{self.tag}{self.n}d", int(size), n,
                                     [list(range(n))] * int(size))

    def gamma(self, shape=1., scale=1., size=None):
        self.calls.append(("gamma", shape, scale, size))
        self.n += 1
        if size is None:
            return self.world.pos(f"{self.tag}{self.n}g")
        size = size if isinstance(size, tuple) else (size,)
        return self.world.poss(f"{self.tag}{self.n}g", *size)

    def randint(self, *a, **k):
        raise Unsupported("randint")


class SymRandom(_Rand):
    pass


class ConRandom(_Rand, np.random.RandomState):
    """accepted wherever a RandomState is."""

    def __new__(cls, world, tag, zero=True):
        return np.random.RandomState.__new__(cls, 0)

    def __init__(self, world, tag, zero=True):
        np.random.RandomState.__init__(self, 0)
        _Rand.__init__(self, world, tag, zero)


def run_concrete(h, real, point, choices):
    """('ok'|'skip'|'fail', messages)."""
    w = ConWorld(real, point, choices)
    w.keep = h.keep
    logging.disable(logging.CRITICAL)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            h.fn(w, **h.params)
    except Skip as e:
        return "skip", [str(e)], w
    except Exception as e:     # noqa: any exception is an observation
        if w.failures:
            return "fail", w.failures, w
        tb = traceback.extract_tb(e.__traceback__)
        at = next((f"{f.filename}:{f.lineno}" for f in reversed(tb)
                   if "hmmlearn" in f.filename), "")
        return "fail", [f"unexpected {type(e).__name__}: {e} {at}"], w
    return ("fail" if w.failures else "ok"), w.failures, w
