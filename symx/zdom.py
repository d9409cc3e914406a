"""z3-term domains: values are solver terms, conditional moves become ite,
and only conditional *branches* on symbolic conditions fork.

LogDomain   log-weights: linear reals extended with -inf (kernels in the log
            domain, e.g. the Viterbi recursion).
"""
import sys
import time

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
import z3  # noqa: E402

from .engine import Infeasible, Stats  # noqa: E402
from .llir import MemViolation, MergeFail, Obj, PIte, UNDEF  # noqa: E402
from .poly import Unsupported  # noqa: E402


DEBUG = False


class ZEngine:
    """re-execution over a z3 path condition."""

    def __init__(self, logic=None, timeout_ms=60000):
        self.stats = Stats()
        self.logic = logic
        self.timeout = timeout_ms
        self.pc = []
        self.prefix = []
        self.taken = []
        self.alts = []
        self.in_merge = 0
        self.solver = self._new()

    def _new(self):
        s = z3.SolverFor(self.logic) if self.logic else z3.Solver()
        s.set("timeout", self.timeout)
        return s

    def check(self, *extra):
        t = time.time()
        self.solver.push()
        try:
            for e in extra:
                self.solver.add(e)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        finally:
            self.solver.pop()
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        k = str(r)
        setattr(self.stats, k, getattr(self.stats, k) + 1)
        return k, m

    def assume(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def decided(self, c):
        """True/False when the path condition settles c, else None."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return None

    def push_merge(self, c):
        self.in_merge += 1
        self.solver.push()
        self.solver.add(c)
        self.pc.append(c)

    def pop_merge(self):
        self.in_merge -= 1
        self.solver.pop()
        self.pc.pop()

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.in_merge:
            raise MergeFail()
        if DEBUG:
            import traceback
            traceback.print_stack(limit=6)
            print("FORK", c)
        self.stats.branches += 1
        n = len(self.taken)
        if n < len(self.prefix):
            v = self.prefix[n]
        else:
            t, _ = self.check(c)
            f, _ = self.check(z3.Not(c)) if t != "unsat" else ("sat", None)
            if t == "unsat" and f == "unsat":
                raise Infeasible()
            v = t != "unsat"
            if t != "unsat" and f != "unsat":
                self.alts.append(self.taken + [False])
                self.stats.forks += 1
        self.taken.append(v)
        self.assume(c if v else z3.Not(c))
        return v

    def choose(self, n):
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            v = 0
            for o in range(1, n):
                self.alts.append(self.taken + [o])
        self.taken.append(v)
        return v

    def explore(self, thunk):
        todo = [[]]
        out = []
        while todo:
            self.prefix = todo.pop()
            self.taken = []
            self.alts = []
            self.pc = []
            self.in_merge = 0
            self.solver = self._new()
            try:
                r = thunk()
                out.append((list(self.pc), r))
                self.stats.paths += 1
            except Infeasible:
                pass
            finally:
                todo.extend(self.alts)
        return out

    def prove(self, c, what=""):
        """('proved'|'refuted'|'unknown', model)"""
        self.stats.obligations += 1
        c = z3.simplify(c)
        if z3.is_true(c):
            self.stats.discharged += 1
            return "proved", None
        r, m = self.check(z3.Not(c))
        if r == "unsat":
            self.stats.discharged += 1
            return "proved", None
        return ("refuted" if r == "sat" else "unknown"), m


class LV:
    """extended real <= +inf excluded: term r, flag k (value is -inf)."""
    __slots__ = ("r", "k")

    def __init__(self, r, k=None):
        self.r = r
        self.k = k if k is not None else z3.BoolVal(False)

    def __repr__(self):
        return f"LV({self.r},{self.k})"

    def __add__(self, o):
        o = LV.of(o)
        return LV(self.r + o.r, zor(self.k, o.k))

    __radd__ = __add__

    @staticmethod
    def of(x):
        if isinstance(x, LV):
            return x
        x = float(x)
        if x == float("-inf"):
            return LV(z3.RealVal(0), z3.BoolVal(True))
        if x != x or x == float("inf"):
            raise Unsupported("inf/nan in the log domain")
        return LV(z3.RealVal(repr(x)) if x != int(x) else z3.RealVal(int(x)))

    def lt(self, o):
        return zand(znot(o.k), zor(self.k, self.r < o.r))

    def le(self, o):
        return zor(self.k, zand(znot(o.k), self.r <= o.r))

    def eq(self, o):
        return zor(zand(self.k, o.k), zand(znot(self.k), znot(o.k),
                                           self.r == o.r))


class PV:
    """a probability known through its logarithm (an LV)."""
    __slots__ = ("log",)

    def __init__(self, log):
        self.log = log


def zand(*a):
    b = []
    for x in a:
        if z3.is_false(x):
            return x
        if not z3.is_true(x):
            b.append(x)
    return z3.BoolVal(True) if not b else b[0] if len(b) == 1 else z3.And(*b)


def zor(*a):
    b = []
    for x in a:
        if z3.is_true(x):
            return x
        if not z3.is_false(x):
            b.append(x)
    return z3.BoolVal(False) if not b else b[0] if len(b) == 1 else z3.Or(*b)


def znot(a):
    if z3.is_true(a):
        return z3.BoolVal(False)
    if z3.is_false(a):
        return z3.BoolVal(True)
    return z3.Not(a)


class ZBase:
    mergeable = False

    def __init__(self, eng):
        self.eng = eng

    # -- booleans and integers
    def branch(self, c):
        return self.eng.branch(c)

    def bnot(self, a):
        return znot(a)

    def bbop(self, op, a, b):
        return {"and": zand, "or": zor}[op](a, b) if op != "xor" \
            else z3.Xor(a, b)

    def icmp(self, pred, a, b, n):
        if z3.is_bool(a) or z3.is_bool(b):
            a = a if not type(a) is int else z3.BoolVal(bool(a))
            b = b if not type(b) is int else z3.BoolVal(bool(b))
            e = a == b
            return e if pred == "eq" else znot(e)
        if pred[0] == "u":
            # operands are known non-negative here or the claim is refuted
            lo = zand(z3.IntVal(0) <= a, z3.IntVal(0) <= b)
            if self.eng.prove(lo)[0] != "proved":
                raise Unsupported("unsigned comparison of negative values")
            pred = "s" + pred[1:]
        f = {"eq": lambda: a == b, "ne": lambda: a != b,
             "slt": lambda: a < b, "sle": lambda: a <= b,
             "sgt": lambda: a > b, "sge": lambda: a >= b}[pred]
        return f()

    def idiv(self, op, a, b, n):
        if op == "ashr" and type(b) is int:
            k = 1 << b
            if self.eng.prove(a % k == 0)[0] == "proved":
                return a / k
        if op in ("sdiv",) and type(b) is int and b > 0:
            if self.eng.prove(a >= 0)[0] == "proved":
                return a / b
        raise Unsupported(f"{op} of a symbolic integer")

    def ite(self, c, a, b):
        if a is b:
            return a
        if type(a) is tuple or type(b) is tuple:
            if type(a) is tuple and type(b) is tuple and a[0] is b[0] and \
                    a[0] is not None and type(a[0]) is not str:
                return (a[0], z3.simplify(z3.If(c, iz(a[1]), iz(b[1]))))
            if type(a) is tuple and type(b) is tuple and \
                    isinstance(a[0], Obj) and isinstance(b[0], Obj):
                return (PIte(c, a, b), 0)
            return a if self.branch(c) else b
        if isint(a) and isint(b):
            if type(a) is int and type(b) is int and a == b:
                return a
            return z3.simplify(z3.If(c, iz(a), iz(b)))
        if isbool(a) or isbool(b):
            return z3.If(c, bz(a), bz(b))
        return self.fite(c, a, b)

    # -- memory with symbolic offsets
    def _candidates(self, o, off, size):
        vs = leaves(off)
        if vs is not None:
            bad = [k for k in vs if not (o.lo <= k and k + size <= o.size)
                   or k not in o.cells or o.cells[k][1] != size]
            if not bad or self.eng.prove(
                    zand(*[off != k for k in bad]))[0] == "proved":
                return sorted(set(vs) - set(bad))
        lo_ok = zand(off >= o.lo, off + size <= o.size)
        r, m = self.eng.prove(lo_ok)
        if r != "proved":
            raise MemViolation(f"offset may leave {o.name}")
        ks = [k for k, c in sorted(o.cells.items()) if c[1] == size]
        r, m = self.eng.prove(zor(*[off == k for k in ks]))
        if r != "proved":
            raise Unsupported("symbolic offset outside the written cells")
        return [k for k in ks if self.eng.check(off == k)[0] != "unsat"]

    def sym_load(self, M, o, off, size):
        ks = self._candidates(o, off, size)
        v = o.cells[ks[-1]][0]
        for k in reversed(ks[:-1]):
            v = self.ite(off == k, o.cells[k][0], v)
        return v

    def sym_offset(self, M, o, off, size, what):
        ks = range(o.lo, o.size, size)
        r, m = self.eng.prove(zor(*[off == k for k in ks]))
        if r != "proved":
            raise MemViolation(f"{what} may leave {o.name}")
        for k in ks:
            if self.branch(off == k):
                return k
        raise Infeasible()


def leaves(e, limit=64):
    """values an ite-tree of integer constants can take, or None."""
    if type(e) is int:
        return {e}
    if z3.is_int_value(e):
        return {e.as_long()}
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_ITE:
        a, b = leaves(ch[1]), leaves(ch[2])
        return None if a is None or b is None else a | b
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB):
        vs = [leaves(x) for x in ch]
        if any(v is None for v in vs):
            return None
        acc = vs[0]
        for v in vs[1:]:
            f = {z3.Z3_OP_ADD: lambda x, y: x + y,
                 z3.Z3_OP_MUL: lambda x, y: x * y,
                 z3.Z3_OP_SUB: lambda x, y: x - y}[k]
            acc = {f(x, y) for x in acc for y in v}
            if len(acc) > limit:
                return None
        return acc
    return None


def isint(a):
    return type(a) is int or z3.is_int(a) if not isinstance(a, (LV, PV)) \
        and a is not UNDEF and type(a) is not tuple else False


def isbool(a):
    return z3.is_bool(a) if z3.is_expr(a) else False


def iz(a):
    return z3.IntVal(a) if type(a) is int else a


def bz(a):
    return z3.BoolVal(bool(a)) if type(a) is int else a


class LogDomain(ZBase):
    tag = "log"
    symints = True

    def lit(self, x):
        if x == float("-inf"):
            return LV.of(x)
        if x != x or x == float("inf"):
            return x          # only ever compared against
        return LV.of(x)

    def undef(self, p):
        self.nundef = getattr(self, "nundef", 0) + 1
        return LV(z3.Real(f"uninit{self.nundef}"))

    def value_in(self, x):
        if isinstance(x, (LV, PV)):
            return x
        return self.lit(float(x))

    def fite(self, c, a, b):
        if not isinstance(a, LV) or not isinstance(b, LV):
            return a if self.branch(c) else b
        return LV(z3.If(c, a.r, b.r), self._bite(c, a.k, b.k))

    @staticmethod
    def _bite(c, a, b):
        if z3.is_true(a) and z3.is_true(b) or z3.is_false(a) and z3.is_false(b):
            return a
        return z3.If(c, a, b)

    def fadd(self, a, b):
        if not isinstance(a, LV) or not isinstance(b, LV):
            raise Unsupported("addition outside the log domain")
        return a + b

    def _neg(self, a):
        if not z3.is_false(a.k):
            if self.eng.prove(znot(a.k))[0] != "proved":
                raise Unsupported("negation of a value that may be -inf")
        return LV(-a.r)

    def fneg(self, a):
        return self._neg(a)

    def fsub(self, a, b):
        return a + self._neg(b)

    def fmul(self, a, b):
        raise Unsupported("product in the log domain")

    fdiv = frem = fmul

    def fcmp(self, pred, a, b):
        for x, y, sw in ((a, b, False), (b, a, True)):
            if not isinstance(y, LV):
                # comparison with +inf or nan
                if y != y:
                    return 1 if pred[0] == "u" and pred != "une" or \
                        pred in ("uno", "une") else 0
                k = pred[1:]
                if pred in ("ord", "uno"):
                    return 1 if pred == "ord" else 0
                if k in ("eq", "ne"):
                    return 0 if k == "eq" else 1
                less = k in ("lt", "le")
                return 1 if less != sw else 0
        if pred == "ord":
            return 1
        if pred == "uno":
            return 0
        k = pred[1:]
        if k == "eq":
            r = a.eq(b)
        elif k == "ne":
            r = znot(a.eq(b))
        elif k == "lt":
            r = a.lt(b)
        elif k == "le":
            r = a.le(b)
        elif k == "gt":
            r = b.lt(a)
        else:
            r = b.le(a)
        if z3.is_true(r):
            return 1
        if z3.is_false(r):
            return 0
        return r

    def sitofp(self, i):
        return LV(z3.ToReal(iz(i)))

    def fn(self, name, *a):
        x = a[0]
        if name == "log":
            if isinstance(x, PV):
                return x.log
            raise Unsupported("log of a log-weight")
        if name == "isinf":
            return self._s(x.k)
        if name == "isnan":
            return 0
        if name == "exp" and isinstance(x, LV):
            return PV(x)
        if name in ("fmax", "fmin"):
            y = a[1]
            c = x.lt(y) if name == "fmax" else y.lt(x)
            return self.fite(c, y, x)
        raise Unsupported(f"{name} in the log domain")

    def _s(self, c):
        if z3.is_true(c):
            return 1
        if z3.is_false(c):
            return 0
        return c
