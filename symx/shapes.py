"""Kernels on arrays whose *sizes* are symbolic integers.

Floating-point values are havoc (every comparison of two of them may go
either way), array dimensions are z3 integers, and every load and store is an
obligation: it must lie inside its object, and a load must find a cell that
was written.  Arguments may have any strides, so only their own elements can
be addressed; arrays made by the kernel are contiguous.
"""
import numpy as np

from . import kernels, llir, zdom
from .engine import Infeasible
from .kernels import REP, rep_info
from .llir import CxxThrow, GilViolation, MemViolation, MergeFail, Obj, UNDEF
from .poly import Unsupported
from .zdom import ZBase, iz, z3, zand, zor


class HV:
    """any double."""
    __slots__ = ()

    def __repr__(self):
        return "?"


class Bad(HV):
    """an indeterminate value: may be moved around, not used."""
    __slots__ = ()

    def __repr__(self):
        return "uninitialised"


ANY = HV()
BAD = Bad()


class SymViolation(MemViolation):
    def __init__(self, msg, model=None):
        super().__init__(msg)
        self.model = model


class ShapeEngine(zdom.ZEngine):
    """conditions on sizes fork; only havoc comparisons are joined."""

    def __init__(self, timeout_ms=20000):
        super().__init__(timeout_ms=timeout_ms)
        self.pure = {}

    def sizes_only(self, c):
        k = c.get_id()
        r = self.pure.get(k)
        if r is None or not r[0].eq(c):
            todo, ok, seen = [c], True, set()
            while todo and ok:
                e = todo.pop()
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                if z3.is_const(e) and z3.is_bool(e) and \
                        e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    ok = False
                todo.extend(e.children())
            r = self.pure[k] = (c, ok)
        return r[1]

    def decided(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if not self.sizes_only(c):
            return None
        if self.in_merge:
            if self.check(z3.Not(c))[0] == "unsat":
                return True
            if self.check(c)[0] == "unsat":
                return False
            raise MergeFail()
        return self.branch(c)


class ShapeDomain(ZBase):
    tag = "shape"

    def __init__(self, eng):
        super().__init__(eng)
        self.n = 0

    def fresh(self):
        self.n += 1
        return z3.Bool(f"cmp{self.n}")

    def lit(self, x):
        return ANY

    value_in = lit

    def undef(self, p):
        return BAD

    def fite(self, c, a, b):
        return BAD if a is BAD or b is BAD else ANY

    def fadd(self, a, b):
        return BAD if a is BAD or b is BAD else ANY

    fsub = fmul = fdiv = frem = fadd

    def fneg(self, a):
        return a

    def fcmp(self, pred, a, b):
        if pred in ("true", "false"):
            return 1 if pred == "true" else 0
        self.used(a, b)
        return self.fresh()

    def used(self, *a):
        if BAD in a:
            raise SymViolation("an uninitialised cell decides a branch or "
                               "is returned", self.eng.check()[1])

    def sitofp(self, i):
        return ANY

    def fptosi(self, a):
        self.n += 1
        return z3.Int(f"int{self.n}")

    def fptrunc(self, a):
        return ANY

    def bitcast(self, a, t):
        raise Unsupported("bit pattern of a havoc value")

    def fn(self, name, *a):
        if name in ("isnan", "isinf"):
            self.used(*a)
            return self.fresh()
        return BAD if BAD in a else ANY

    def sym_load(self, M, o, off, size):
        if o.cells and all(c[0] is ANY for c in o.cells.values()):
            self._candidates(o, off, size)
            return ANY
        return super().sym_load(M, o, off, size)


class Buffer:
    """a contiguous object of symbolic size."""

    def __init__(self, box, o, init=False):
        self.box, self.o, self.init = box, o, init
        self.writes = []         # (lo, hi, value)

    def _inside(self, off, size, what):
        o = self.o
        self.box.prove(zand(iz(off) >= 0, iz(off) + size <= iz(o.size)),
                       lambda: f"{what} of {size} bytes at offset "
                       f"{z3.simplify(iz(off))} of {o.name}")

    def store(self, o, off, v, size):
        self.box.access(o, "write", True)
        self._inside(off, size, "write")
        if self.box.eng.in_merge:
            raise MergeFail()
        if v is BAD or v is UNDEF:
            if self.writes:
                e = iz(off)
                self.box.prove(zand(*[zor(e + size <= iz(lo), iz(hi) <= e)
                                      for lo, hi, _ in self.writes]),
                               f"an uninitialised value is stored in {o.name}")
            return
        self.writes.append((off, off + size, v))

    def load(self, o, off, size):
        self.box.access(o, "read")
        self._inside(off, size, "read")
        if self.init:
            return ANY
        e = z3.simplify(iz(off))
        for lo, hi, v in reversed(self.writes):
            if v is ANY and z3.simplify(iz(lo)).eq(e):
                return v
        ok = zor(*[zand(iz(lo) <= e, e + size <= iz(hi))
                   for lo, hi, _ in self.writes])
        self.box.obligations += 1
        if self.box.eng.prove(ok)[0] != "proved" and \
                not self.box.d.branch(ok):
            return UNDEF         # what becomes of it decides
        self.box.discharged += 1
        vals = [v for _, _, v in self.writes]
        if any(v is ANY for v in vals):
            return ANY
        r = None
        for lo, hi, v in self.writes:
            if type(v) is tuple:
                raise Unsupported("pointer in a symbolic buffer")
            c = zand(iz(lo) <= e, e + size <= iz(hi))
            r = iz(v) if r is None else z3.If(c, iz(v), r)
        return z3.simplify(r)

    def fill(self, off, n, v):
        self.box.access(self.o, "write")
        self.box.prove(zand(iz(off) >= 0, iz(n) >= 0,
                            iz(off) + iz(n) <= iz(self.o.size)),
                       f"fill of {z3.simplify(iz(n))} bytes of {self.o.name}")
        if self.box.eng.in_merge:
            raise MergeFail()
        self.writes.append((off, iz(off) + iz(n), v))

    def complete(self):
        """is every cell written?"""
        if self.init:
            return
        k = z3.Int("cell")
        self.box.prove(z3.Implies(
            zand(k >= 0, 8 * k + 8 <= iz(self.o.size)),
            zor(*[zand(iz(lo) <= 8 * k, 8 * k + 8 <= iz(hi))
                  for lo, hi, _ in self.writes])),
            f"a cell of the result {self.o.name} is never written")


class Element:
    """one element of an argument: nothing around it may be touched."""

    def __init__(self, box, idx, shape):
        self.box, self.idx, self.shape = box, idx, shape

    def load(self, o, off, size):
        self.box.access(o, "read")
        self.box.prove(zand(iz(off) >= 0, iz(off) + size <= 8, *[
            zand(iz(i) >= 0, iz(i) < iz(n))
            for i, n in zip(self.idx, self.shape)]),
            f"read of {o.name} outside the argument")
        return ANY

    def store(self, o, off, v, size):
        raise SymViolation(f"write to the argument {o.name}",
                           self.box.eng.check()[1])


class Box:
    """one kernel call under a path of a ZEngine."""

    def __init__(self, eng, src=None, gil=False):
        self.eng = eng
        self.gil = gil
        self.module = kernels.load_module(src, True)
        self.obligations = self.discharged = 0
        self.found = []
        self.setup()

    def setup(self):
        self.d = ShapeDomain(self.eng)
        M = self.M = llir.Machine(self.module, self.d, None)
        M.nalloc = M.gil_events = 0
        M.check_gil = self.gil
        M.outs = []
        M.arg_array = self._arg
        h = M.handlers
        for n, f in (("__symx_array_new", self._new),
                     ("__symx_array_convert", self._convert),
                     ("__symx_array_reshape", self._reshape),
                     ("__symx_at", self._at),
                     ("llvm.memset.", self._memset),
                     ("memset", self._memset_c),
                     ("llvm.memcpy.", self._memcpy),
                     ("llvm.memmove.", self._memcpy),
                     ("memcpy", self._memcpy_c),
                     ("memmove", self._memcpy_c)):
            h["@" + n] = f
        for n in ("_Znwm", "malloc", "_Znam"):
            h["@" + n] = self._heap
        m = Obj(64, "module")
        m.zero = True
        M.call("@__symx_module_init", [(m, 0)])
        self.names = sorted(M.registered)
        self.released = 0

    # -- obligations
    def prove(self, c, what):
        self.obligations += 1
        r, m = self.eng.prove(c)
        if r == "proved":
            self.discharged += 1
            return
        if callable(what):
            what = what()
        if r == "unknown":
            raise Unsupported(f"undecided: {what}")
        if self.eng.in_merge:
            raise MergeFail()
        # report it, and go on with the cases where it holds
        self.found.append((what, m))
        self.eng.assume(c)
        if self.eng.check()[0] == "unsat":
            raise Infeasible()

    def access(self, o, how, store=False):
        if not o.alive:
            raise SymViolation(f"{how} of freed {o.name}",
                               self.eng.check()[1])
        if store and not self.M.gil:
            self.released += 1

    # -- memory
    def _make(self, size, name, init=False):
        o = Obj(size, name)
        if type(size) is not int:
            o.havoc = Buffer(self, o, init)
        elif init:
            for k in range(0, size, 8):
                o.cells[k] = (ANY, 8)
        return o

    def _heap(self, M, n):
        M.nalloc += 1
        return (self._make(n if type(n) is int else z3.simplify(n),
                           f"heap{M.nalloc}"), 0)

    def _memset(self, M, p, b, n, *a):
        o, off = p
        if o is not None and o.havoc is not None:
            v = 0 if b == 0 else ANY
            o.havoc.fill(off, n, v)
        elif type(n) is not int or type(off) is not int:
            raise Unsupported("memset of symbolic extent")
        else:
            M.memset(p, b, n)

    def _memset_c(self, M, p, b, n):
        self._memset(M, p, b, n)
        return p

    def _memcpy(self, M, d, s, n, *a):
        do, so = d[0], s[0]
        if type(n) is int and type(d[1]) is int and type(s[1]) is int and \
                not any(o is not None and o.havoc is not None
                        for o in (do, so)):
            M.memcpy(d, s, n)
            return
        for o, off, w in ((so, s[1], "read"), (do, d[1], "write")):
            if o is None or type(o) is str:
                if type(n) is int and n == 0:
                    return
                raise Unsupported("memcpy")
            self.prove(zand(iz(off) >= 0, iz(n) >= 0,
                            iz(off) + iz(n) <= iz(o.size)),
                       f"memcpy {w} of {o.name}")
        if isinstance(so.havoc, Element) or isinstance(do.havoc, Element):
            raise SymViolation("copy around one element of an argument",
                               self.eng.check()[1])
        if isinstance(do.havoc, Buffer):
            do.havoc.fill(d[1], n, ANY)
        else:
            raise Unsupported("memcpy into a plain object")

    def _memcpy_c(self, M, d, s, n, *a):
        self._memcpy(M, d, s, n)
        return d

    # -- arrays
    def _rep(self, data, shape, kind, name):
        o = Obj(REP, f"rep:{name}")
        c = o.cells
        c[0] = (data, 8)
        c[8] = (len(shape), 8)
        st, k = [], 8
        for n in reversed(shape):
            st.append(k)
            k = k * n
        st = [z3.simplify(x) if type(x) is not int else x for x in st[::-1]]
        for i in range(4):
            c[16 + 8 * i] = (shape[i] if i < len(shape) else 1, 8)
            c[48 + 8 * i] = (st[i] if i < len(shape) else 0, 8)
        c[80] = (8, 8)
        o.tag = ("rep", kind)
        o.ro = True
        return (o, 0)

    @staticmethod
    def total(shape):
        k = 1
        for n in shape:
            k = k * n
        return k

    def fresh_array(self, shape, kind, name, init=False):
        size = 8 * self.total(shape)
        if type(size) is not int:
            size = z3.simplify(size)
        else:
            size = z3.IntVal(size)
        o = Obj(size, name)
        o.havoc = Buffer(self, o, init)
        return self._rep((o, 0), list(shape), kind, name)

    def _shape(self, M, shape, ndim):
        return [M.loadi((shape[0], shape[1] + 8 * i), 8)
                for i in range(ndim)]

    def _new(self, M, kind, itemsize, ndim, shape):
        kernels._need_gil(M, "array allocation")
        sh = self._shape(M, shape, ndim)
        for n in sh:
            if self.eng.prove(iz(n) >= 0)[0] != "proved":
                if self.d.branch(iz(n) < 0):
                    raise CxxThrow(("@_ZTISt16invalid_argument", 0), None)
        M.nalloc += 1
        return self.fresh_array(sh, kind, f"new{M.nalloc}")

    def argument(self, i, shape, kind=0):
        """an argument of any layout."""
        r = self._rep((Obj(0, f"arg{i}"), 0), shape, kind, f"arg{i}")
        for k in range(len(shape)):
            r[0].cells[48 + 8 * k] = (z3.Int(f"stride{i}_{k}"), 8)
        r[0].tag = ("arg", kind)
        return r

    def _arg(self, idx, flags, kind):
        r = self.reps[idx]
        if r is None:
            raise CxxThrow(("@symx_TypeError", 0), None)
        return self._convert(self.M, r, flags, kind)

    def _convert(self, M, rep, flags, kind):
        kernels._need_gil(M, "array conversion")
        data, sh, st, k = rep_info(rep)
        if k == kind and (rep[0].tag[0] != "arg" or not flags & 1):
            return rep
        # a contiguous argument would be passed on itself: its cells are the
        # caller's, so they may not be written
        o = self.fresh_array(sh, kind, f"{rep[0].name}-c", init=True)
        b = rep_info(o)[0][0].havoc
        if k == kind:
            b.store = lambda o, *a: (_ for _ in ()).throw(SymViolation(
                f"write to the argument {o.name}", self.eng.check()[1]))
            b.fill = b.store
        return o

    def _reshape(self, M, rep, ndim, shape):
        kernels._need_gil(M, "array reshape")
        data, sh, st, k = rep_info(rep)
        if rep[0].tag[0] == "arg":
            raise Unsupported("reshape of an argument of any layout")
        new = self._shape(M, shape, ndim)
        same = z3.simplify(iz(self.total(new)) == iz(self.total(sh)))
        if self.eng.prove(same)[0] != "proved" and not self.d.branch(same):
            raise CxxThrow(("@symx_ValueError", 0), None)
        return self._rep(data, new, k, "reshape")

    def _at(self, M, rep, n, i, j, k):
        o = rep[0]
        if o is None:
            raise MemViolation("null array")
        idx = [i, j, k][:n]
        if o.tag[0] == "arg":
            e = Obj(8, f"{o.name}[{', '.join(map(str, idx))}]")
            e.havoc = Element(self, idx, rep_info(rep)[1][:n])
            return (e, 0)
        p, sh, st, _ = rep_info(rep)
        off = p[1]
        for x, s in zip(idx, st):
            off = off + x * s
        return (p[0], off if type(off) is int else z3.simplify(off))

    # -- one call
    def run(self, name, shapes, kinds=None):
        """('ok', [(None | shape, complete?)...]) or ('raise', kind)."""
        M = self.M
        M.outs, M.excmsg, M.gil = [], {}, True
        M.exp_arg_kinds = None
        M.args = [None] * len(shapes)
        self.reps = [self.argument(i, s) for i, s in enumerate(shapes)]
        wrapper, fn = M.registered[name]
        try:
            M.call(wrapper, [fn])
        except CxxThrow as e:
            ti = e.ti[0]
            ti = ti.name if isinstance(ti, Obj) else str(ti)
            if not M.gil and M.check_gil:
                raise GilViolation("exception propagated to Python with the "
                                   "GIL released")
            return "raise", ti
        if not M.gil and M.check_gil:
            raise GilViolation("kernel returned with the GIL released")
        outs = []
        for k, x in M.outs:
            if k != "a":
                self.d.used(x)
                outs.append(None)
                continue
            p, sh, st, kind = rep_info(x)
            if p[0].havoc is not None:
                p[0].havoc.complete()
            outs.append(sh)
        return "ok", outs


_ = (np, zdom)
