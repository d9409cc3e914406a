"""bit-precise floating point: numbers are z3 FloatingPoint terms, the code
runs on object arrays of them, every comparison forks."""
import math
import struct
import time

import z3

from . import npshim as N
from .poly import Unsupported

RNE = z3.RNE()


class Run:
    """one path through the code under test."""
    cur = None

    def __init__(self, sort, prefix):
        self.sort = sort
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.vars = {}

    def branch(self, cond):
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.trace)
        b = self.prefix[i] if i < len(self.prefix) else True
        self.trace.append(b)
        self.pc.append(cond if b else z3.Not(cond))
        return b


class FBool:
    def __init__(self, c):
        self.c = z3.simplify(c)

    def __bool__(self):
        return Run.cur.branch(self.c)

    def __and__(self, o):
        return FBool(z3.And(self.c, o.c if isinstance(o, FBool)
                            else z3.BoolVal(bool(o))))

    def __or__(self, o):
        return FBool(z3.Or(self.c, o.c if isinstance(o, FBool)
                           else z3.BoolVal(bool(o))))

    def __invert__(self):
        return FBool(z3.Not(self.c))


class F:
    """a floating-point number."""
    __slots__ = ("e", "z")
    shape = ()

    def __init__(self, e, z=None):
        self.e = e
        self.z = z          # +0 known statically

    @staticmethod
    def of(x):
        if isinstance(x, F):
            return x
        if isinstance(x, N.V):
            if not x.is_const:
                raise Unsupported("mixing floating point and reals")
            x = float(x.const)
        try:
            x = float(x)
        except (TypeError, ValueError):
            return None
        s = Run.cur.sort
        if math.isinf(x):
            return F(z3.fpPlusInfinity(s) if x > 0 else
                     z3.fpMinusInfinity(s))
        if math.isnan(x):
            return F(z3.fpNaN(s))
        return F(z3.FPVal(x, s), x == 0 and math.copysign(1, x) > 0)

    def _bin(self, o, f, swap=False):
        o = F.of(o)
        if o is None:
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        return F(f(RNE, a.e, b.e))

    def __add__(self, o):
        o2 = F.of(o)
        if o2 is None:
            return NotImplemented
        if o2.z:             # x + 0 == x (values here are never -0)
            return self
        if self.z:
            return o2
        return self._bin(o, z3.fpAdd)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, z3.fpSub)

    def __rsub__(self, o):
        return self._bin(o, z3.fpSub, True)

    def __mul__(self, o):
        return self._bin(o, z3.fpMul)

    def __rmul__(self, o):
        return self._bin(o, z3.fpMul, True)

    def __truediv__(self, o):
        return self._bin(o, z3.fpDiv)

    def __rtruediv__(self, o):
        return self._bin(o, z3.fpDiv, True)

    def __neg__(self):
        return F(z3.fpNeg(self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return F(z3.fpAbs(self.e))

    def _cmp(self, o, f):
        o = F.of(o)
        if o is None:
            return NotImplemented
        return FBool(f(self.e, o.e))

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ)

    def __eq__(self, o):
        return self._cmp(o, z3.fpEQ)

    def __ne__(self, o):
        return self._cmp(o, z3.fpNEQ)

    __hash__ = None

    def __format__(self, spec):
        return "F"

    def __float__(self):
        raise Unsupported("float() of a symbolic floating-point number")


def fp_value(m, e):
    """the Python float of a model's value (or None when not a number)."""
    s = e.sort()
    x = m.eval(z3.fpFPToFP(RNE, e, z3.Float64()) if s != z3.Float64() else e,
               model_completion=True)
    v = z3.simplify(z3.fpToIEEEBV(x))
    if not z3.is_bv_value(v):
        return None
    return struct.unpack("<d", struct.pack("<Q", v.as_long()))[0]


def explore(sort, fn, check, deadline, max_paths=4000, stats=None,
            timeout=60000):
    """run fn on every path; check(run, value, solve) decides obligations."""
    stack = [[]]
    n = 0
    while stack:
        if time.time() > deadline or n >= max_paths:
            return n, False
        r = Run(sort, stack.pop())
        Run.cur = r
        n += 1
        val = fn(r)

        def solve(*extra):
            s = z3.SolverFor("QF_FP")
            s.set("timeout", int(max(1000, min(
                timeout, (deadline - time.time()) * 1000))))
            for c in r.pc:
                s.add(c)
            for c in extra:
                s.add(c)
            t = time.time()
            a = s.check()
            if stats is not None:
                stats["queries"] = stats.get("queries", 0) + 1
                stats["solver_s"] = stats.get("solver_s", 0.) + \
                    time.time() - t
                stats[str(a)] = stats.get(str(a), 0) + 1
            return str(a), (s.model() if a == z3.sat else None)
        check(r, val, solve)
        for i in range(len(r.prefix), len(r.trace)):
            stack.append(r.trace[:i] + [not r.trace[i]])
    return n, True
