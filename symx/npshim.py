"""numpy / scipy / sklearn as seen by hmmlearn's modules while they are executed
symbolically.

Numbers of type float are V objects held in object arrays (class SA); every
structural operation (indexing, views, broadcasting, reductions, einsum ...) is
numpy's own, run on those arrays.  Only functions whose C implementation needs
machine floats are replaced, by their mathematical definition.
"""
import functools
import itertools
from fractions import Fraction
import math
import numbers
import operator

import numpy as np
import scipy.special
import scipy.linalg

from . import poly as P
from .poly import V, Cond, cond_and, cmp_eq, cmp_le, cmp_lt, Unsupported

_FLOATK = "fc"


def is_floaty(dt):
    if dt is None:
        return False
    try:
        return np.dtype(dt).kind in _FLOATK
    except TypeError:
        return False


def has_sym(x):
    if isinstance(x, (V, SA)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def cells(a):
    """object array with every number a V (arrays of other things kept)."""
    a = np.asarray(a)
    out = np.empty(a.shape, dtype=object)
    if a.ndim == 0:
        out[()] = _cell(a[()] if a.dtype != object else a.item())
        return out.view(SA)
    f = out.ravel() if out.flags.c_contiguous else out.reshape(-1)
    for i, x in enumerate(a.ravel().tolist() if a.dtype != object
                          else a.ravel()):
        f[i] = _cell(x)
    return out.view(SA)


def _cell(x):
    if isinstance(x, (V, Cond, np.ndarray)):
        return x
    v = V.of(x) if isinstance(x, (numbers.Number, np.generic)) else x
    return v if v is not None else x


def wrap(r):
    if isinstance(r, SA):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            return r.view(SA)
        return r
    if type(r) is tuple:
        return tuple(wrap(x) for x in r)
    if type(r) is list:
        return [wrap(x) for x in r]
    return r


def unsa(x):
    if isinstance(x, SA):
        return x.view(np.ndarray)
    if type(x) is tuple:
        return tuple(unsa(y) for y in x)
    if type(x) is list:
        return [unsa(y) for y in x]
    return x


class SA(np.ndarray):
    """object array of V."""

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if is_floaty(kw.get("dtype")):
            kw.pop("dtype")
        if method == "__call__" and ufunc.__name__ in UF:
            r = UF[ufunc.__name__](*inputs)
            if "where" in kw and kw["where"] is not True:
                raise Unsupported("ufunc where=")
            if out is not None:
                out[0][...] = r
                return out[0]
            return wrap(r)
        ins = tuple(unsa(x) for x in inputs)
        if out is not None:
            for o in out:
                if isinstance(o, np.ndarray) and o.dtype.kind == "f":
                    raise Unsupported("symbolic result into a native float "
                                      "array")
            kw["out"] = tuple(unsa(o) for o in out)
        if method == "reduce" and kw.get("where", True) is not True and \
                "initial" not in kw and ufunc.__name__ in ("add", "multiply"):
            kw["initial"] = P.V0 if ufunc.__name__ == "add" else P.V1
        r = getattr(ufunc, method)(*ins, **kw)
        if out is not None and method != "at":
            return out[0] if len(out) == 1 else out
        return wrap(r)

    def __array_function__(self, func, types, args, kw):
        name = func.__name__
        o = FUNCS.get(name)
        if o is not None and getattr(np, name, None) is func:
            return o(*args, **kw)
        o = LINALG.get(name)
        if o is not None and getattr(np.linalg, name, None) is func:
            return o(*args, **kw)
        return wrap(super().__array_function__(func, types, args, kw))

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, *a, **k):
        if dtype is object or is_floaty(dtype):
            return self.copy()
        k = np.dtype(dtype).kind
        if k == "b":
            return np.array([bool(x) for x in self.ravel()],
                            dtype=bool).reshape(self.shape)
        return np.array([int(x) for x in self.ravel()],
                        dtype=dtype).reshape(self.shape)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        n = self.size if axis is None else (
            self.shape[axis] if isinstance(axis, int)
            else int(np.prod([self.shape[i] for i in axis])))
        r = self.sum(axis=axis, keepdims=keepdims) / n
        if out is not None:
            out[...] = r
            return out
        return r

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        m = self.mean(axis=axis, keepdims=True)
        d = self - m
        n = self.size if axis is None else self.shape[axis]
        return (d * d).sum(axis=axis, keepdims=keepdims) / (n - ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return sqrt(self.var(axis, ddof=ddof, keepdims=keepdims))

    def round(self, decimals=0, out=None):
        return np_round(self, decimals, out)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return amax(self, axis, out, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return amin(self, axis, out, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return np.any(_truth(self), axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return np.all(_truth(self), axis=axis, keepdims=keepdims)


def _truth(a):
    return np.array([bool(x) for x in a.ravel()],
                    dtype=bool).reshape(a.shape)


# ------------------------------------------------------------- elementwise
def elementwise(f, n=1):
    def g(*xs, out=None, where=True, dtype=None, casting=None, **kw):
        if where is not True:
            raise Unsupported("ufunc where=")
        xs = xs[:n]
        if all(not isinstance(x, (np.ndarray, list, tuple)) for x in xs):
            r = f(*[_cell(x) for x in xs])
            if out is not None:
                (out[0] if isinstance(out, tuple) else out)[...] = r
                return out
            return r
        xs = [cells(x) for x in xs]
        bs = np.broadcast(*xs) if n > 1 else None
        shape = bs.shape if n > 1 else xs[0].shape
        res = [f(*t) for t in zip(*[np.broadcast_to(
            x.view(np.ndarray), shape).ravel() for x in xs])]
        if res and all(isinstance(x, (bool, np.bool_)) for x in res):
            r = np.array(res, dtype=bool).reshape(shape)
        elif not res:
            r = np.empty(shape, dtype=object).view(SA)
        else:
            r = np.empty(len(res), dtype=object)
            for i, x in enumerate(res):
                r[i] = x
            r = r.reshape(shape).view(SA)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            o[...] = r
            return o
        return r
    return g


def _isnan(x):
    return isinstance(x, V) and x.special == "nan"


def _isninf(x):
    x = V.of(x)
    if x.special:
        return x.special == "-inf"
    return P.ENGINE.branch(P.is_ninf(x))


def _isinf(x):
    x = V.of(x)
    return x.special == "inf" or _isninf(x)


def _isfinite(x):
    return not _isnan(x) and not _isinf(x)


def _max2(a, b):
    a, b = V.of(a), V.of(b)
    if _isnan(a) or _isnan(b):
        return P.NAN
    return a if bool(P._cmp("le", b, a)) else b


def _min2(a, b):
    a, b = V.of(a), V.of(b)
    if _isnan(a) or _isnan(b):
        return P.NAN
    return a if bool(P._cmp("le", a, b)) else b


def _logaddexp(a, b):
    return (V.of(a).exp() + V.of(b).exp()).log()


def _sign(x):
    x = V.of(x)
    if bool(x > 0):
        return P.V1
    return -P.V1 if bool(x < 0) else P.V0


def _log10(x):
    return x.log() / math.log(10)


def _pow(a, b):
    return V.of(a) ** V.of(b)


def _rounded(name, x, lo, hi, num):
    """an integer-step function of x: only lo <= f(x) - x <= hi is known."""
    x = V.of(x)
    if _isnan(x) or _isinf(x):
        return x
    if x.is_const:
        return V.of(num(float(x.const)))
    r = P.uf(name, x)
    P.ENGINE.assume(P._cmp("le", V.of(lo), r - x))
    P.ENGINE.assume(P._cmp("le", r - x, V.of(hi)))
    return r


def _round(x, decimals=0):
    h = Fraction(1, 2) / 10 ** decimals
    return _rounded(f"round{decimals}", x, -h, h,
                    lambda c: float(np.round(c, decimals)))


def _floor(x):
    return _rounded("floor", x, -1, 0, math.floor)


def _ceil(x):
    return _rounded("ceil", x, 0, 1, math.ceil)


UF = {
    "rint": elementwise(_round),
    "floor": elementwise(_floor),
    "ceil": elementwise(_ceil),
    "log": elementwise(lambda x: P.watched("log", x, x.log())),
    "log2": elementwise(lambda x: x.log() / V.of(2).log().delog()),
    "log10": elementwise(_log10),
    "log1p": elementwise(lambda x: P.watched("log1p", x, x.log1p())),
    "exp": elementwise(lambda x: P.watched("exp", x, x.exp())),
    "expm1": elementwise(lambda x: x.expm1()),
    "sqrt": elementwise(lambda x: x.sqrt()),
    "square": elementwise(lambda x: x * x),
    "reciprocal": elementwise(lambda x: 1 / x),
    "absolute": elementwise(abs),
    "fabs": elementwise(abs),
    "sign": elementwise(_sign),
    "isnan": elementwise(_isnan),
    "isinf": elementwise(_isinf),
    "isfinite": elementwise(_isfinite),
    "isneginf": elementwise(_isninf),
    "logaddexp": elementwise(_logaddexp, 2),
    "maximum": elementwise(_max2, 2),
    "minimum": elementwise(_min2, 2),
    "fmax": elementwise(_max2, 2),
    "fmin": elementwise(_min2, 2),
    "power": elementwise(_pow, 2),
    "float_power": elementwise(_pow, 2),
    "hypot": elementwise(lambda x, y: (V.of(x) * x + V.of(y) * y).sqrt(), 2),
    "conjugate": elementwise(lambda x: x),
}
exp, log, sqrt = UF["exp"], UF["log"], UF["sqrt"]


class UFWrap:
    """numpy ufunc stand-in (call overridden, .at/.reduce/... kept)."""

    def __init__(self, name):
        self.uf = getattr(np, name)
        self.sym = UF[self.uf.__name__]
        self.__name__ = self.uf.__name__

    def __call__(self, *a, **k):
        if any(has_sym(x) for x in a):
            return self.sym(*a, **k)
        return wrap(self.uf(*a, **k))

    def reduce(self, a, axis=0, **k):
        if self.__name__ == "logaddexp" and has_sym(a):
            return logsumexp(a, axis=axis, keepdims=k.get("keepdims", False))
        k.pop("dtype", None)
        return wrap(self.uf.reduce(a, axis=axis, **k))

    def __getattr__(self, n):
        return getattr(self.uf, n)


# --------------------------------------------------------------- creation
def _native(dtype):
    """a dtype that stays a machine dtype."""
    return dtype is not None and not is_floaty(dtype) and dtype is not object


def _filled(shape, v, order="C"):
    a = np.empty(shape, dtype=object, order=order if order in "CF" else "C")
    a.fill(v)
    return a.view(SA)


UNINIT = None


def zeros(shape, dtype=None, order="C", **k):
    if _native(dtype):
        return np.zeros(shape, dtype, order)
    return _filled(shape, P.V0, order)


def ones(shape, dtype=None, order="C", **k):
    if _native(dtype):
        return np.ones(shape, dtype, order)
    return _filled(shape, P.V1, order)


def empty(shape, dtype=None, order="C", **k):
    if _native(dtype):
        return np.empty(shape, dtype, order)
    a = np.empty(shape, dtype=object, order=order if order in "CF" else "C")
    global UNINIT
    n = empty.count = empty.count + 1
    for i, ix in enumerate(np.ndindex(*a.shape)):
        a[ix] = P.ENGINE.declare(f"uninit{n}_{i}") \
            if P.ENGINE is not None else P.NAN
    return a.view(SA)


empty.count = 0


def full(shape, fill_value, dtype=None, order="C", **k):
    if _native(dtype):
        return np.full(shape, fill_value, dtype, order)
    if dtype is None and isinstance(fill_value, (int, np.integer)):
        return np.full(shape, fill_value, None, order)
    if isinstance(fill_value, (np.ndarray, list, tuple)):
        a = _filled(shape, P.V0, order)
        a[...] = cells(fill_value)
        return a
    return _filled(shape, _cell(fill_value), order)


def eye(N, M=None, k=0, dtype=None, **kw):
    r = np.eye(N, M, k)
    return r.astype(dtype) if _native(dtype) else cells(r)


def identity(n, dtype=None, **kw):
    return eye(n, dtype=dtype)


def _like(f):
    def g(a, *args, dtype=None, shape=None, order="K", subok=True, **k):
        a = np.asarray(a)
        dt = dtype if dtype is not None else (
            None if a.dtype == object or a.dtype.kind in _FLOATK else a.dtype)
        return f(a.shape if shape is None else shape, *args, dtype=dt)
    return g


zeros_like, ones_like, empty_like = _like(zeros), _like(ones), _like(empty)


def full_like(a, fill_value, dtype=None, **k):
    return _like(lambda s, dtype: full(s, fill_value, dtype))(a, dtype=dtype)


def _conv(copy):
    def g(x, dtype=None, copy=copy, order="K", ndmin=0, subok=False, **kw):
        if _native(dtype) and not has_sym(x):
            return np.array(x, dtype=dtype, copy=True if copy else None,
                            ndmin=ndmin)
        if isinstance(x, SA):
            if _native(dtype):
                return x.astype(dtype)
            r = x.copy(order if order in "CF" else "C") if copy else x
            if order in ("C", "F") and not copy:
                r = np.asarray(r.view(np.ndarray), order=order).view(SA)
        else:
            a = np.array(unsa(x), copy=True if copy else None)
            if a.dtype == object or a.dtype.kind == "f" or is_floaty(dtype):
                r = cells(a)
                if order == "F":
                    r = np.asfortranarray(r.view(np.ndarray)).view(SA)
            else:
                r = a
        if ndmin > r.ndim:
            r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
        return r
    return g


array, asarray = _conv(True), _conv(None)


def atleast(n):
    def g(*xs):
        rs = []
        for x in xs:
            a = asarray(x)
            rs.append(wrap(getattr(np, f"atleast_{n}d")(unsa(a))))
        if len(rs) == 1:
            return rs[0]
        return type(np.atleast_1d(0.0, 0.0))(rs)
    return g


# ----------------------------------------------------------- numpy functions
def _reduce_minmax(f):
    def g(a, axis=None, out=None, keepdims=False, **k):
        a = cells(a)
        uf = UF["maximum" if f == "max" else "minimum"]
        if axis is None:
            fl = list(a.ravel())
            if not fl:
                raise ValueError("zero-size array to reduction operation "
                                 f"{f}imum which has no identity")
            r = functools.reduce(_max2 if f == "max" else _min2, fl)
            if keepdims:
                r = cells(np.array(r, dtype=object)).reshape((1,) * a.ndim)
            return r
        if isinstance(axis, tuple):
            raise Unsupported("max over several axes")
        parts = [a.take(i, axis=axis) for i in range(a.shape[axis])]
        r = parts[0]
        for p in parts[1:]:
            r = uf(r, p)
        if keepdims:
            r = np.expand_dims(r, axis)
        if out is not None:
            out[...] = r
            return out
        return r
    return g


amax, amin = _reduce_minmax("max"), _reduce_minmax("min")


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        x, y = V.of(x), V.of(y)
        if x.special or y.special:
            if x.special == "nan" or y.special == "nan":
                return equal_nan and x.special == y.special
            return x.special == y.special
        if P.same(x, y):
            return True
        d = x - y
        if d.is_const and y.is_const:
            return abs(d.const) <= atol + rtol * abs(y.const)
        t = P.V.of(atol) + P.V.of(rtol) * abs(y)
        return bool(cond_and(cmp_le(d, t), cmp_le(-d, t)))
    return elementwise(f, 2)(a, b)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np.all(isclose(a, b, rtol, atol, equal_nan)))


def array_equal(a, b, **k):
    a, b = cells(a), cells(b)
    return a.shape == b.shape and all(
        bool(x == y) for x, y in zip(a.ravel(), b.ravel()))


def cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None,
        aweights=None, dtype=None):
    if y is not None or fweights is not None or aweights is not None:
        raise Unsupported("cov options")
    m = cells(m)
    x = m.reshape(1, -1) if m.ndim == 1 else m
    if not rowvar and m.ndim > 1:
        x = x.T
    n = x.shape[1]
    d = x - x.mean(axis=1, keepdims=True)
    f = n - (ddof if ddof is not None else (0 if bias else 1))
    c = d @ d.T
    c = c / f if f > 0 else c * P.NAN
    r = c.squeeze()
    if not isinstance(r, np.ndarray):
        r = cells(np.array(r, dtype=object))
    return r


def diff_mean(f):
    def g(a, axis=None, dtype=None, out=None, keepdims=False, **k):
        return getattr(cells(a), f)(axis=axis, keepdims=keepdims)
    return g


def where(cond, *ab):
    c = np.asarray(cond)
    if c.dtype == object:
        c = _truth(c)
    if not ab:
        return np.where(c)
    return wrap(np.where(c, *[unsa(cells(x)) if not isinstance(x, np.ndarray)
                              or x.dtype == object or x.dtype.kind == "f"
                              else x for x in ab]))


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    big = float(np.finfo(float).max)

    def f(v):
        if _isnan(v):
            return V.of(nan)
        if v.special == "inf":
            return V.of(big if posinf is None else posinf)
        if _isninf(v):
            return V.of(-big if neginf is None else neginf)
        return v
    r = elementwise(f)(x)
    if not copy and isinstance(x, SA):
        x[...] = r
        return x
    return r


def average(a, axis=None, weights=None, returned=False, keepdims=False):
    if returned or keepdims:
        raise Unsupported("average options")
    a = cells(a)
    if weights is None:
        return a.mean(axis=axis)
    w = cells(weights)
    if w.shape != a.shape:
        if axis is None or w.ndim != 1:
            raise TypeError("bad weights")
        w = np.swapaxes(np.broadcast_to(
            w, (a.ndim - 1) * (1,) + w.shape), -1, axis)
    s = (w * np.ones(a.shape, dtype=int)).sum(axis=axis)
    return (a * w).sum(axis=axis) / s


def clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    a_min = min if a_min is None else a_min
    a_max = max if a_max is None else a_max
    r = cells(a)
    if a_min is not None:
        r = UF["maximum"](r, a_min)
    if a_max is not None:
        r = UF["minimum"](r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


def real_if_close(a, tol=100):
    return wrap(np.asarray(a)) if has_sym(a) else np.real_if_close(a, tol)


def einsum(sub, *ops, out=None, dtype=None, optimize=False, **k):
    ops = [unsa(cells(o)) if not isinstance(o, np.ndarray) or
           o.dtype == object or o.dtype.kind == "f" else o for o in ops]
    r = np.einsum(sub, *ops)
    if isinstance(r, np.ndarray) and r.ndim == 0:
        r = r.item() if r.dtype == object else r[()]
    r = wrap(r)
    if out is not None:
        out[...] = r
        return out
    return r


def count_nonzero(a, axis=None, **k):
    return np.count_nonzero(_truth(cells(a)), axis=axis)


def linspace(*a, **k):
    return cells(np.linspace(*a, **k))


def np_round(a, decimals=0, out=None):
    return elementwise(lambda x: _round(x, decimals))(cells(a), out=out)


def bincount(x, weights=None, minlength=0):
    x = np.asarray(x)
    if weights is None:
        return np.bincount(x, minlength=minlength)
    r = zeros(max(int(x.max(initial=-1)) + 1, minlength))
    for i, w in zip(x, cells(weights)):
        r[i] = r[i] + w
    return r


def to_float(x=0.0):
    """float() as the code under test sees it."""
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        x = x.item()
    return x if isinstance(x, V) else float(x)


FUNCS = dict(
    bincount=bincount,
    round=np_round, around=np_round,
    zeros=zeros, ones=ones, empty=empty, full=full, eye=eye,
    identity=identity, zeros_like=zeros_like, ones_like=ones_like,
    empty_like=empty_like, full_like=full_like, array=array,
    asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray,
    asfortranarray=lambda x, dtype=None, **k: asarray(x, dtype, order="F"),
    copy=lambda a, order="K", subok=False: array(a),
    atleast_1d=atleast(1), atleast_2d=atleast(2), atleast_3d=atleast(3),
    amax=amax, amin=amin, max=amax, min=amin,
    isclose=isclose, allclose=allclose, array_equal=array_equal, cov=cov,
    where=where, nan_to_num=nan_to_num, average=average, clip=clip,
    real_if_close=real_if_close, einsum=einsum, count_nonzero=count_nonzero,
    linspace=linspace, mean=diff_mean("mean"), var=diff_mean("var"),
    std=diff_mean("std"),
    any=lambda a, axis=None, **k: np.any(
        _truth(a) if has_sym(a) and isinstance(a, np.ndarray)
        else a, axis=axis, **k),
    all=lambda a, axis=None, **k: np.all(
        _truth(a) if has_sym(a) and isinstance(a, np.ndarray)
        else a, axis=axis, **k),
    real=lambda a: a, isneginf=UF["isneginf"],
)
_ALWAYS = {"zeros", "ones", "empty", "full", "eye", "identity", "zeros_like",
           "ones_like", "empty_like", "full_like", "array", "asarray",
           "asanyarray", "ascontiguousarray", "asfortranarray", "copy",
           "atleast_1d", "atleast_2d", "atleast_3d", "linspace"}


# ----------------------------------------------------------------- linalg
def _det(a):
    n = a.shape[0]
    if n == 0:
        return P.V1
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    r = P.V0
    for j in range(n):
        m = np.delete(np.delete(a, 0, 0), j, 1)
        t = a[0, j] * _det(m)
        r = r + t if j % 2 == 0 else r - t
    return r


def _batched(f):
    def g(a, *args, **kw):
        if not has_sym(a):
            return None
        a = cells(a).view(np.ndarray)
        if a.ndim < 2 or a.shape[-1] != a.shape[-2]:
            raise np.linalg.LinAlgError(
                "Last 2 dimensions of the array must be square")
        lead = a.shape[:-2]
        res = [f(a[ix], *args, **kw) for ix in np.ndindex(*lead)]
        return lead, res
    return g


def _stack(lead, res, tail=None):
    if tail is None:
        if not lead:
            return res[0]
        out = np.empty(lead, dtype=object)
        for ix, r in zip(np.ndindex(*lead), res):
            out[ix] = r
        return out.view(SA)
    out = np.empty(lead + tail, dtype=object)
    for ix, r in zip(np.ndindex(*lead), res):
        out[ix] = r
    return out.view(SA)


def inv(a, *args, **kw):
    if not has_sym(a):
        return np.linalg.inv(a)
    n = np.asarray(a).shape[-1]

    def one(m):
        d = _det(m)
        if bool(cmp_eq(d, P.V0)):
            raise np.linalg.LinAlgError("Singular matrix")
        if n == 1:
            return np.array([[1 / d]], dtype=object)
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                c = _det(np.delete(np.delete(m, j, 0), i, 1))
                out[i, j] = (c if (i + j) % 2 == 0 else -c) / d
        return out
    lead, res = _batched(one)(a)
    return _stack(lead, res, (n, n))


def det(a):
    lead, res = _batched(_det)(a)
    return _stack(lead, res)


def slogdet(a):
    if not has_sym(a):
        return np.linalg.slogdet(a)

    def one(m):
        d = _det(m)
        if bool(cmp_lt(V.of(0), d)):
            return 1., d.log()
        if bool(cmp_eq(d, P.V0)):
            return 0., P.NINF
        return -1., (-d).log()
    lead, res = _batched(one)(a)
    if not lead:
        return np.float64(res[0][0]), res[0][1]
    return (np.array([r[0] for r in res]).reshape(lead),
            _stack(lead, [r[1] for r in res]))


def _chol(m):
    n = m.shape[0]
    L = np.empty((n, n), dtype=object)
    L.fill(P.V0)
    for j in range(n):
        s = m[j, j]
        for k in range(j):
            s = s - L[j, k] * L[j, k]
        if not bool(cmp_lt(P.V0, V.of(s))):
            raise np.linalg.LinAlgError(
                f"{j + 1}-th leading minor of the array is not positive "
                "definite")
        L[j, j] = V.of(s).sqrt()
        for i in range(j + 1, n):
            s = m[i, j]
            for k in range(j):
                s = s - L[i, k] * L[j, k]
            L[i, j] = s / L[j, j]
    return L


def np_cholesky(a, *, upper=False):
    if not has_sym(a):
        return np.linalg.cholesky(a)
    n = np.asarray(a).shape[-1]
    lead, res = _batched(_chol)(a)
    if upper:
        res = [r.T for r in res]
    return _stack(lead, res, (n, n))


def sp_cholesky(a, lower=False, overwrite_a=False, check_finite=True):
    if not has_sym(a):
        return wrap(scipy.linalg.cholesky(a, lower=lower))
    m = cells(a).view(np.ndarray)
    if check_finite:
        _check_finite(m)
    # LAPACK reads one triangle only: the lower one for lower=True
    src = m if lower else m.T
    L = _chol(src)
    return (L if lower else L.T).view(SA)


def _check_finite(m):
    for x in np.asarray(m).ravel():
        if isinstance(x, V) and not _isfinite(x):
            raise ValueError("array must not contain infs or NaNs")


def solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False,
                     overwrite_b=False, check_finite=True):
    if not has_sym(a) and not has_sym(b):
        return wrap(scipy.linalg.solve_triangular(
            a, b, trans=trans, lower=lower, unit_diagonal=unit_diagonal))
    a = cells(a).view(np.ndarray)
    if trans in (1, "T", 2, "C"):
        a = a.T
        lower = not lower
    b = cells(b).view(np.ndarray)
    n = a.shape[0]
    if b.shape[0] != n:
        raise ValueError("incompatible dimensions")
    vec = b.ndim == 1
    x = np.empty((n, 1 if vec else b.shape[1]), dtype=object)
    bb = b.reshape(n, -1)
    order = range(n) if lower else range(n - 1, -1, -1)
    for i in order:
        for c in range(bb.shape[1]):
            s = bb[i, c]
            for k in (range(i) if lower else range(i + 1, n)):
                s = s - a[i, k] * x[k, c]
            if not unit_diagonal:
                s = s / a[i, i]
            x[i, c] = s
    return (x[:, 0] if vec else x).view(SA)


def solve(a, b, *args, **kw):
    if not has_sym(a) and not has_sym(b):
        return np.linalg.solve(a, b)
    return inv(cells(a)) @ cells(b)


class Eig(V):
    """an eigenvalue of [[a, b], [b, d]]: its sign and its order to the other
    are decided on a, d and the determinant; its value (a root) is made when
    something else is asked of it."""
    __slots__ = ("mat", "hi")

    def __init__(self, mat, hi):
        self.mat, self.hi = mat, hi
        self.special = None

    def __getattr__(self, name):
        if name not in ("R", "L", "lc"):
            raise AttributeError(name)
        a, b, d = self.mat
        r = ((a - d) * (a - d) + 4 * b * b).sqrt()
        v = (a + d + r) / 2 if self.hi else (a + d - r) / 2
        self.R, self.L, self.lc = v.R, v.L, v.lc
        return getattr(self, name)

    def sign(self, op, flip):
        """the condition self op 0 (0 op self if flip)."""
        a, b, d = self.mat
        det, z = a * d - b * b, P.V0
        if op == "eq":
            s = cmp_le(a + d, z) if self.hi else cmp_le(z, a + d)
            return cond_and(cmp_eq(det, z), s)
        cmp = cmp_lt if op == "lt" else cmp_le
        # lo < 0 iff a < 0 or d < 0 or det < 0 (and with <= for <=), and
        # hi > 0 iff a > 0 or d > 0 or det < 0
        if not self.hi and not flip:
            return P.cond_or(cmp(a, z), cmp(d, z), cmp(det, z))
        if self.hi and flip:
            return P.cond_or(cmp(z, a), cmp(z, d), cmp(det, z))
        if not self.hi:
            return cond_and(cmp(z, a), cmp(z, d), cmp(z, det))
        return cond_and(cmp(a, z), cmp(d, z), cmp(z, det))


def _eig_cmp(op, a, b):
    """comparisons which need no root."""
    if isinstance(a, Eig) and isinstance(b, Eig) and a.mat is b.mat:
        if op == "le" and (a.hi == b.hi or b.hi):
            return P.TRUE
        if a.hi == b.hi:
            return P.TRUE if op == "eq" else P.FALSE
        if op == "lt" and a.hi:
            return P.FALSE
    if isinstance(a, Eig) and not b.special and b.is_const and b.const == 0:
        return a.sign(op, False)
    if isinstance(b, Eig) and not a.special and a.is_const and a.const == 0:
        return b.sign(op, True)
    return None


def _eign_cmp(op, a, b):
    if isinstance(a, EigN) and isinstance(b, EigN):
        if a.s is b.s and op == "le" and a.k <= b.k:
            return P.TRUE
    elif isinstance(a, EigN) and not b.special and b.is_const \
            and b.const == 0:
        return a.sign(op, False)
    elif isinstance(b, EigN) and not a.special and a.is_const \
            and a.const == 0:
        return b.sign(op, True)
    return None


P.COMPARE[Eig] = _eig_cmp


def _eigsh(m):
    n = m.shape[0]
    if n == 1:
        return [V.of(m[0, 0])]
    if n == 2:
        mat = V.of(m[0, 0]), V.of(m[1, 0]), V.of(m[1, 1])
        if mat[1].is_const and mat[1].const == 0:
            return [_min2(mat[0], mat[2]), _max2(mat[0], mat[2])]
        return [Eig(mat, False), Eig(mat, True)]
    # diagonal matrices of any size
    if all(V.of(m[i, j]).is_const and V.of(m[i, j]).const == 0
           for i in range(n) for j in range(i)):
        return [V.of(m[i, i]) for i in range(n)]
    low = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            low[i, j] = V.of(m[max(i, j), min(i, j)])
    s = []
    for k in range(1, n + 1):       # the sums of the principal minors
        t = P.V0
        for ix in itertools.combinations(range(n), k):
            t = t + _det(low[np.ix_(ix, ix)])
        s.append(t)
    return [EigN(s, k) for k in range(n)]


class EigN(V):
    """the k-th smallest eigenvalue of a larger matrix: only its sign, by
    Descartes' rule (exact, since every root of the characteristic polynomial
    is real)."""
    __slots__ = ("s", "k")

    def __init__(self, s, k):
        self.s, self.k = s, k
        self.special = None

    def __getattr__(self, name):
        if name not in ("R", "L", "lc"):
            raise AttributeError(name)
        raise Unsupported("values of a 3x3 symbolic matrix's eigenvalues")

    def neg(self, c):
        """are at least c eigenvalues negative?"""
        return _variations(self.s, c)

    def pos(self, c):
        return _variations([x if i % 2 else -x
                            for i, x in enumerate(self.s)], c)

    def sign(self, op, flip):
        n = len(self.s)
        lt = self.neg(self.k + 1)
        if op == "lt":
            return self.pos(n - self.k) if flip else lt
        le = P.cond_not(self.pos(n - self.k))
        if op == "le":
            return P.cond_not(lt) if flip else le
        return cond_and(le, P.cond_not(lt))


P.COMPARE[EigN] = _eign_cmp


def _variations(s, c):
    """does the sequence 1, s[0], s[1], ... change sign at least c times
    (zeros left out)?"""
    neg = [cmp_lt(x, P.V0) for x in s]
    pos = [cmp_lt(P.V0, x) for x in s]
    if c == 1:
        return P.cond_or(*neg)
    if c == len(s):
        return cond_and(*[neg[i] if i % 2 == 0 else pos[i]
                          for i in range(c)])
    out = []
    for i in range(len(s)):         # the first change is to s[i] < 0 ...
        for sub in _changes(neg, pos, i, c - 1, True):
            out.append(sub)
    return P.cond_or(*out)


def _changes(neg, pos, i, c, isneg):
    """conditions that s[i] has this sign and c more changes follow."""
    here = neg[i] if isneg else pos[i]
    if c == 0:
        yield here
        return
    for j in range(i + 1, len(neg)):
        for r in _changes(neg, pos, j, c - 1, not isneg):
            yield cond_and(here, r)


def eigvalsh(a, *args, **kw):
    if not has_sym(a):
        return wrap(scipy.linalg.eigvalsh(a))
    n = np.asarray(a).shape[-1]
    _check_finite(cells(a))
    lead, res = _batched(
        lambda m: np.array(_eigsh(m), dtype=object))(a)
    return _stack(lead, res, (n,))


LINALG = dict(inv=inv, det=det, slogdet=slogdet, cholesky=np_cholesky,
              eigvalsh=eigvalsh, solve=solve)


# ------------------------------------------------------------------ special
def logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
    if return_sign:
        raise Unsupported("logsumexp(return_sign)")
    if not has_sym(a) and not has_sym(b):
        return wrap(scipy.special.logsumexp(a, axis, b, keepdims))
    f, P.WATCH = P.WATCH, None      # (scipy's shifts by the largest)
    try:
        e = exp(cells(a))
        if b is not None:
            e = e * cells(b)
        s = e.sum(axis=axis, keepdims=keepdims)
        return log(s)
    finally:
        P.WATCH = f


def _digamma(x):
    x = V.of(x)
    if x.is_const:
        return V.of(float(scipy.special.digamma(float(x.const))))
    return P.uf("digamma", x)


def _gammaln(x):
    x = V.of(x)
    if x.is_const:
        c = x.const
        if type(c) is int and 1 <= c <= 170:
            return V(lc=math.factorial(c - 1)) if c > 2 else P.V0
        return V.of(float(scipy.special.gammaln(float(c))))
    return P.uf("gammaln", x)


def _xlogy(x, y):
    x, y = V.of(x), V.of(y)
    if x.is_const and x.const == 0:
        return P.V0
    if not x.is_const and bool(cmp_eq(x, P.V0)):
        return P.V0
    return x * y.log()


def softmax(x, axis=None):
    e = exp(cells(x))
    return e / e.sum(axis=axis, keepdims=True)


SPECIAL = dict(
    logsumexp=logsumexp, digamma=elementwise(_digamma),
    psi=elementwise(_digamma), gammaln=elementwise(_gammaln),
    loggamma=elementwise(_gammaln), xlogy=elementwise(_xlogy, 2),
    softmax=softmax,
    log_softmax=lambda x, axis=None: cells(x) - logsumexp(
        x, axis=axis, keepdims=True),
)


class _Dist:
    def __init__(self, real, logpmf, rvs=None):
        self._real = real
        self._logpmf = logpmf
        self._rvs = rvs

    def rvs(self, *a, **k):
        if self._rvs is None:
            raise Unsupported("rvs")
        return self._rvs(*a, **k)

    def logpmf(self, x, *a, **k):
        return self._logpmf(x, *a, **k)

    def pmf(self, x, *a, **k):
        return exp(self._logpmf(x, *a, **k))

    def __getattr__(self, n):
        return getattr(self._real, n)


def _multinomial_logpmf(x, n, p):
    x = np.asarray(x)
    p = cells(p)
    n = np.asarray(n)
    c = SPECIAL["gammaln"](n + 1)
    t = SPECIAL["xlogy"](x, p) - SPECIAL["gammaln"](x + 1)
    r = c + t.sum(axis=-1)
    bad = (x < 0).any(axis=-1) | (x.sum(axis=-1) != n)
    if np.any(bad):
        r = where(bad, P.NINF, r)
    return r


def _multinomial_rvs(n, p, size=None, random_state=None):
    return random_state.multinomial(n, p, size)


def _poisson_logpmf(k, mu, loc=0):
    k = np.asarray(k) - loc
    r = SPECIAL["xlogy"](k, mu) - SPECIAL["gammaln"](k + 1) - cells(mu)
    if (np.asarray(k) < 0).any():
        r = where(np.broadcast_to(k, r.shape) < 0, P.NINF, r)
    return r


# ------------------------------------------------------------------ proxies
class Proxy:
    def __init__(self, real, over):
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over

    def __getattr__(self, n):
        if n in self._over:
            return self._over[n]
        return getattr(self._real, n)

    def __setattr__(self, n, v):
        raise AttributeError("read-only stand-in")


def _npfunc(name, f):
    """use the symbolic version when anything symbolic is involved."""
    if name in _ALWAYS:
        return f
    real = getattr(np, name)

    @functools.wraps(f)
    def g(*a, **k):
        if has_sym(list(a)) or has_sym(list(k.values())):
            return f(*a, **k)
        return _floats(real(*a, **k))
    return g


def _floats(r):
    if type(r) is np.ndarray and r.dtype.kind == "f":
        return cells(r)
    if type(r) in (tuple, list):
        return type(r)(_floats(x) for x in r)
    return wrap(r)


def _math(name, f):
    real = getattr(math, name)

    @functools.wraps(real)
    def g(*a):
        if any(has_sym(x) for x in a):
            return f(*[x.item() if isinstance(x, np.ndarray) else x
                       for x in a])
        return real(*a)
    return g


class MathProxy(Proxy):
    def __init__(self):
        super().__init__(math, {n: _math(n, f) for n, f in dict(
            log=lambda x, b=None: log(x) if b is None else log(x) / log(b),
            exp=UF["exp"], sqrt=UF["sqrt"], log1p=UF["log1p"],
            expm1=UF["expm1"], log2=UF["log2"], log10=UF["log10"],
            fabs=abs, isnan=UF["isnan"], isinf=UF["isinf"],
            isfinite=UF["isfinite"], pow=UF["power"], hypot=UF["hypot"],
            lgamma=SPECIAL["gammaln"], prod=lambda x: _prod(x),
            fsum=lambda x: functools.reduce(operator.add, x, P.V0),
            isclose=lambda a, b, **k: isclose(a, b)).items()})

    def __getattr__(self, n):
        if n == "pi":
            return P.vpi()
        return super().__getattr__(n)


def _prod(x):
    return functools.reduce(operator.mul, x, P.V1)


class NumpyProxy:
    def __init__(self, over=None, linalg=None):
        d = self.__dict__
        d["_cache"] = {}
        d["_over"] = over or {}
        d["linalg"] = Proxy(np.linalg, {**LINALG, **(linalg or {})})
        d["pi"] = None

    def __getattribute__(self, n):
        if n.startswith("_"):
            return object.__getattribute__(self, n)
        ov = object.__getattribute__(self, "_over")
        if n in ov:
            return ov[n]
        if n == "linalg":
            return self.__dict__["linalg"]
        if n == "pi":
            return P.vpi()
        c = object.__getattribute__(self, "_cache")
        r = c.get(n)
        if r is not None:
            return r
        if n in FUNCS and hasattr(np, n):
            r = _npfunc(n, FUNCS[n])
        else:
            r = getattr(np, n)
            if isinstance(r, np.ufunc):
                if r.__name__ in UF:
                    r = UFWrap(n)
            elif callable(r) and not isinstance(r, type):
                real = r

                def r(*a, _real=real, **k):
                    if is_floaty(k.get("dtype")):
                        k.pop("dtype")
                    return _floats(_real(*a, **k))
                functools.update_wrapper(r, real)
        c[n] = r
        return r


# --------------------------------------------------------------- sklearn
def check_array(X, *args, **kw):
    if isinstance(X, SA):
        if X.ndim != 2:
            raise ValueError("Expected 2D array, got another dimension")
        if X.shape[0] < 1 or X.shape[1] < 1:
            raise ValueError("Found array with 0 sample(s) or feature(s)")
        for x in X.ravel():
            if isinstance(x, V) and not _isfinite(x):
                raise ValueError("Input contains NaN or infinity")
        return X
    import sklearn.utils.validation as sv
    r = sv.check_array(X, *args, **kw)
    return cells(r) if r.dtype.kind == "f" else r


def _poisson_rvs(mu, loc=0, size=None, random_state=None):
    return random_state.poisson(mu) + loc


def check_random_state(seed):
    if getattr(seed, "_symx_random", False):
        return seed
    import sklearn.utils as su
    r = su.check_random_state(seed)
    return r if isinstance(r, RandomProxy) else RandomProxy(r)


def _plain(x):
    """native numbers from constants."""
    if isinstance(x, V):
        if not x.is_const:
            raise Unsupported("a random generator's argument is symbolic")
        return float(x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return np.array([_plain(y) for y in x.ravel()],
                        dtype=float).reshape(x.shape)
    if isinstance(x, (list, tuple)):
        return type(x)(_plain(y) for y in x)
    return x


class RandomProxy:
    """a real RandomState, fed with constants only."""
    _symx_random = True

    def __init__(self, real):
        self._real = real

    def __getattr__(self, n):
        f = getattr(self._real, n)
        if not callable(f):
            return f

        def g(*a, **k):
            return _floats(f(*[_plain(x) for x in a],
                             **{q: _plain(x) for q, x in k.items()}))
        return g
