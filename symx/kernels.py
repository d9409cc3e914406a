"""Handlers for the externals of the lowered kernels, value domains, and the
bridge that lets the Python layer call an interpreted kernel."""
import hashlib
import math
import os
import tempfile

import numpy as np

from . import llir, merge
from . import poly as P
from .llir import (CxxThrow, GilViolation, IRError, MemViolation, Obj, UNDEF)
from .poly import V

REP = 88
KIND_DTYPE = {0: np.float64, 1: np.int64, 2: np.int32, 3: np.bool_, 4: np.float32}
VALUE_ERRORS = ("St16invalid_argument", "St11range_error", "St12domain_error",
                "St12length_error", "N8pybind1111value_errorE")


# ------------------------------------------------------------------ domains
class SymDomain:
    """exact reals (extended with inf/nan), branch conditions fork."""
    tag = "sym"
    mergeable = True

    def __init__(self, eng):
        self.eng = eng
        self.cache = {}
        self.nundef = 0

    def lit(self, x):
        v = self.cache.get(x)
        if v is None:
            v = V.of(float(x))
            if x == x:
                self.cache[x] = v
        return v

    def undef(self, p):
        self.nundef += 1
        return self.eng.declare(f"uninit_{p[0].name}_{p[1]}", "real")

    def fadd(self, a, b):
        return a + b

    def fsub(self, a, b):
        return a - b

    def fmul(self, a, b):
        return a * b

    def fdiv(self, a, b):
        return a / b

    def frem(self, a, b):
        raise P.Unsupported("frem")

    def fneg(self, a):
        return -a

    def fcmp(self, pred, a, b):
        if pred in ("true", "false"):
            return 1 if pred == "true" else 0
        nan = a.special == "nan" or b.special == "nan"
        if pred == "ord":
            return 0 if nan else 1
        if pred == "uno":
            return 1 if nan else 0
        if nan:
            return 1 if pred[0] == "u" else 0
        k = pred[1:]
        br = self.eng.branch
        if k == "eq":
            r = br(P.mk_cmp("eq", a, b))
        elif k == "ne":
            r = not br(P.mk_cmp("eq", a, b))
        elif k == "lt":
            r = br(P.mk_cmp("lt", a, b))
        elif k == "le":
            r = br(P.mk_cmp("le", a, b))
        elif k == "gt":
            r = br(P.mk_cmp("lt", b, a))
        else:
            r = br(P.mk_cmp("le", b, a))
        return 1 if r else 0

    def sitofp(self, i):
        return V.of(int(i))

    def fptosi(self, a):
        if a.is_const:
            return int(a.const)
        raise P.Unsupported("fptosi of a symbolic value")

    def fptrunc(self, a):
        raise P.Unsupported("single precision")

    def bitcast(self, a, t):
        raise P.Unsupported("bit pattern of a symbolic value")

    def fn(self, name, *a):
        x = a[0]
        if name in ("exp", "log", "log1p", "sqrt", "expm1"):
            return P.watched(name, x, getattr(x, name)())
        if name == "exp2":
            return (x * V.of(math.log(2))).exp()
        if name == "log2":
            return x.log() * V.of(1 / math.log(2))
        if name == "log10":
            return x.log() * V.of(1 / math.log(10))
        if name == "fabs":
            return abs(x)
        if name == "pow":
            return x ** a[1]
        if name == "fma":
            return x * a[1] + a[2]
        if name in ("fmax", "fmin"):
            y = a[1]
            if x.special == "nan":
                return y
            if y.special == "nan":
                return x
            lt = self.eng.branch(P.mk_cmp("lt", x, y))
            return y if lt == (name == "fmax") else x
        if name == "isnan":
            return 1 if x.special == "nan" else 0
        if name == "isinf":
            if x.special:
                return 1 if x.special in ("inf", "-inf") else 0
            return 1 if self.eng.branch(P.is_ninf(x)) else 0
        raise P.Unsupported(name)

    # fabs(x) == inf is how isinf() is lowered
    def value_in(self, x):
        v = V.of(x)
        if v is None:
            raise IRError(f"not a scalar: {x!r}")
        return v


class ConcreteDomain:
    """plain doubles, to validate the interpreter against the real build."""
    tag = "conc"
    mergeable = False

    def lit(self, x):
        return float(x)

    def undef(self, p):
        return math.nan

    def fadd(self, a, b):
        return a + b

    def fsub(self, a, b):
        return a - b

    def fmul(self, a, b):
        return a * b

    def fdiv(self, a, b):
        with np.errstate(all="ignore"):
            return float(np.float64(a) / np.float64(b))

    def fneg(self, a):
        return -a

    def fcmp(self, pred, a, b):
        if pred in ("true", "false"):
            return 1 if pred == "true" else 0
        nan = a != a or b != b
        if pred == "ord":
            return int(not nan)
        if pred == "uno":
            return int(nan)
        if nan:
            return 1 if pred[0] == "u" else 0
        return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b,
                    "gt": a > b, "ge": a >= b}[pred[1:]])

    def sitofp(self, i):
        return float(i)

    def fptosi(self, a):
        return int(a)

    def fn(self, name, *a):
        with np.errstate(all="ignore"):
            f = {"fabs": np.abs, "fmax": np.fmax, "fmin": np.fmin,
                 "pow": np.power}.get(name)
            if name in ("isnan", "isinf"):
                return int(getattr(np, name)(a[0]))
            if name == "fma":
                return a[0] * a[1] + a[2]
            if f is None:
                f = getattr(np, name)
            return float(f(*[np.float64(x) for x in a]))

    def value_in(self, x):
        return float(x)


# ------------------------------------------------------------------ handlers
H = {}


def handler(*names):
    def deco(f):
        for n in names:
            H["@" + n] = f
        return f
    return deco


def install(M):
    M.handlers.update(H)
    M.excmsg = {}
    M.pending = None


def _need_gil(M, what):
    if not M.gil and M.check_gil:
        raise GilViolation(f"{what} while the GIL is released")


for _n in ("exp", "log", "log1p", "sqrt", "expm1", "exp2", "log2", "log10",
           "fabs", "pow", "fmax", "fmin", "fma"):
    def _mk(_n):
        def h(M, *a):
            return M.d.fn(_n, *a)
        return h
    H["@" + _n] = _mk(_n)
    H[f"@llvm.{_n}.f64"] = _mk(_n)
H["@llvm.maxnum.f64"] = H["@fmax"]
H["@llvm.minnum.f64"] = H["@fmin"]
H["@llvm.fmuladd.f64"] = H["@fma"]


@handler("llvm.is.fpclass.f64")
def _fpclass(M, x, mask):
    r = 0
    if mask & 3:
        r |= M.d.fn("isnan", x)
    if mask & 0x204:
        inf = M.d.fn("isinf", x)
        if inf and mask & 0x204 != 0x204:
            pos = M.d.fcmp("ogt", x, M.d.lit(0.0))
            inf = int(bool(pos) == bool(mask & 0x200))
        r |= inf
    if mask & ~0x207:
        raise P.Unsupported("fpclass")
    return r


@handler("fetestexcept", "feclearexcept")
def _fe(M, m):
    return 0


@handler("__symx_gil")
def _gil(M, held):
    if bool(held) == M.gil and M.check_gil:
        raise GilViolation("GIL " + ("acquired twice" if held
                                     else "released twice"))
    M.gil = bool(held)
    M.gil_events += 1


@handler("__symx_pyapi")
def _pyapi(M, rep):
    _need_gil(M, "reference count change")


def mkrep(M, data, shape, strides, kind, name):
    o = Obj(REP, f"rep:{name}")
    c = o.cells
    c[0] = (data, 8)
    c[8] = (len(shape), 8)
    for i in range(4):
        c[16 + 8 * i] = (shape[i] if i < len(shape) else 1, 8)
        c[48 + 8 * i] = (strides[i] if i < len(shape) else 0, 8)
    c[80] = (8, 8)
    o.tag = ("rep", kind)
    o.ro = True
    return (o, 0)


def rep_info(p):
    o = p[0]
    n = o.cells[8][0]
    return (o.cells[0][0], [o.cells[16 + 8 * i][0] for i in range(n)],
            [o.cells[48 + 8 * i][0] for i in range(n)], o.tag[1])


def contiguous(shape):
    st = []
    k = 8
    for n in reversed(shape):
        st.append(k)
        k *= max(n, 1)
    return st[::-1]


@handler("__symx_array_new")
def _array_new(M, kind, itemsize, ndim, shape):
    _need_gil(M, "array allocation")
    sh = [M.loadi((shape[0], shape[1] + 8 * i), 8) for i in range(ndim)]
    if any(n < 0 for n in sh):
        raise CxxThrow(("@_ZTISt16invalid_argument", 0), None)
    M.nalloc += 1
    name = f"new{M.nalloc}{tuple(sh)}"
    size = 8
    for n in sh:
        size *= n
    o = Obj(size, name)
    return mkrep(M, (o, 0), sh, contiguous(sh), kind, name)


@handler("__symx_array_convert")
def _convert(M, rep, flags, kind):
    _need_gil(M, "array conversion")
    data, sh, st, k = rep_info(rep)
    if k == kind and (not flags & 1 or st == contiguous(sh)):
        return rep
    o = Obj(8 * int(np.prod(sh, dtype=int)), "conv")
    for n, idx in enumerate(np.ndindex(*sh)):
        p = llir.padd(data, sum(i * s for i, s in zip(idx, st)))
        v = M.load(p, 8)
        if v is UNDEF:
            continue
        o.cells[8 * n] = (_cast(M, v, k, kind), 8)
    return mkrep(M, (o, 0), sh, contiguous(sh), kind, "conv")


def _cast(M, v, k, kind):
    if k == kind:
        return v
    if kind == 0:
        return M.d.sitofp(v)
    if k == 0 and kind in (1, 2):
        return M.d.fptosi(v)
    return v


@handler("__symx_array_reshape")
def _reshape(M, rep, ndim, shape):
    _need_gil(M, "array reshape")
    data, sh, st, k = rep_info(rep)
    new = [M.loadi((shape[0], shape[1] + 8 * i), 8) for i in range(ndim)]
    if int(np.prod(new, dtype=int)) != int(np.prod(sh, dtype=int)):
        raise CxxThrow(("@symx_ValueError", 0), None)
    if st == contiguous(sh):
        return mkrep(M, data, new, contiguous(new), k, "reshape")
    r = _convert(M, rep, 1, k)
    data = rep_info(r)[0]
    return mkrep(M, data, new, contiguous(new), k, "reshape")


@handler("__symx_at")
def _at(M, rep, n, i, j, k):
    o = rep[0]
    if o is None:
        raise MemViolation("null array")
    c = o.cells
    p = c[0][0]
    off = i * c[48][0]
    if n > 1:
        off += j * c[56][0]
    if n > 2:
        off += k * c[64][0]
    return (p[0], p[1] + off)


@handler("__symx_check_ndim")
def _check_ndim(M, rep, n):
    if rep[0].cells[8][0] != n:
        raise CxxThrow(("@_ZTISt12domain_error", 0), None)


@handler("__symx_arg_array")
def _arg_array(M, idx, flags, kind):
    return M.arg_array(idx, flags, kind)


@handler("__symx_arg_double")
def _arg_double(M, idx):
    return M.d.value_in(M.args[idx])


@handler("__symx_arg_int")
def _arg_int(M, idx):
    return int(M.args[idx])


@handler("__symx_out_double")
def _od(M, x):
    M.outs.append(("f", x))


@handler("__symx_out_int")
def _oi(M, x):
    M.outs.append(("i", x))


@handler("__symx_out_array")
def _oa(M, rep):
    M.outs.append(("a", rep))


@handler("__symx_out_none")
def _on(M):
    M.outs.append(("n", None))


@handler("__symx_register")
def _register(M, name, wrapper, fn):
    M.registered[M.cstr(name)] = (wrapper[0], fn)


@handler("__symx_throw_py")
def _throw_py(M, kind):
    raise CxxThrow(("@symx_IndexError", 0), None)


@handler("__cxa_allocate_exception")
def _cxa_alloc(M, n):
    return (Obj(max(n, 64), "exception"), 0)


@handler("__cxa_free_exception", "__cxa_end_catch", "_ZNSt16invalid_argumentD1Ev",
         "_ZNSt11range_errorD1Ev")
def _nop(M, *a):
    return None


@handler("__cxa_throw")
def _cxa_throw(M, obj, ti, dtor):
    raise CxxThrow(ti, obj)


@handler("__cxa_begin_catch")
def _cxa_begin(M, obj):
    return obj


@handler("__cxa_rethrow")
def _cxa_rethrow(M):
    (ti, obj), _ = M.pending
    raise CxxThrow(ti, obj)


@handler("__clang_call_terminate", "_ZSt9terminatev", "abort")
def _terminate(M, *a):
    raise MemViolation("std::terminate called")


@handler("_Znwm", "malloc", "_Znam")
def _new(M, n):
    M.nalloc += 1
    o = Obj(n, f"heap{M.nalloc}")
    return (o, 0)


@handler("_ZdlPv", "_ZdlPvm", "free", "_ZdaPv")
def _del(M, p, *a):
    if p[0] is None:
        return
    if not p[0].alive or p[1] != 0:
        raise MemViolation("bad free")
    p[0].alive = False


@handler("_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv",
         "_ZSt20__throw_length_errorPKc", "_ZSt20__throw_out_of_range_fmtPKcz",
         "_ZSt19__throw_logic_errorPKc")
def _std_throw(M, *a):
    raise CxxThrow(("@_ZTISt12length_error", 0), None)


@handler("llvm.memcpy.", "llvm.memmove.")
def _memcpy(M, d, s, n, *a):
    M.memcpy(d, s, n)


@handler("memcpy", "memmove")
def _memcpy_c(M, d, s, n, *a):
    M.memcpy(d, s, n)
    return d


@handler("llvm.memset.")
def _memset(M, p, b, n, *a):
    M.memset(p, b, n)


@handler("memset")
def _memset_c(M, p, b, n):
    M.memset(p, b, n)
    return p


@handler("llvm.umul.with.overflow.i64")
def _umul(M, a, b):
    r = (a & (2**64 - 1)) * (b & (2**64 - 1))
    return (llir.wrap(r, 64), int(r >= 2**64))


@handler("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias",
         "llvm.assume", "llvm.donothing", "llvm.invariant", "llvm.stackrestore")
def _llnop(M, *a):
    return None


@handler("llvm.eh.typeid.for")
def _typeid(M, p, *a):
    return 1


def _minmax(op):
    def h(M, a, b, *r):
        n = 64
        if type(a) is not int or type(b) is not int:
            c = M.d.icmp("sge", a, b, n)     # sizes: never negative
            return M.d.ite(c if op[1:] == "max" else M.d.bnot(c), a, b)
        if op[0] == "u":
            x, y = a & (2**n - 1), b & (2**n - 1)
        else:
            x, y = a, b
        return a if (x >= y) == (op[1:] == "max") else b
    return h


for _n in ("smax", "smin", "umax", "umin"):
    for _b in (64, 32):
        H[f"@llvm.{_n}.i{_b}"] = _minmax(_n)
H["@llvm.abs.i64"] = lambda M, a, *r: abs(a)
H["@llvm.abs.i32"] = H["@llvm.abs.i64"]
H["@llvm.expect.i1"] = lambda M, a, b: a
H["@llvm.expect.i64"] = lambda M, a, b: a
H["@llvm.stacksave"] = lambda M: llir.NULL

_EXC = ("invalid_argument", "range_error", "domain_error", "length_error",
        "out_of_range", "logic_error", "runtime_error", "overflow_error",
        "underflow_error")


def _exc_ctor(M, this, msg, *a):
    try:
        M.excmsg[this[0]] = M.cstr(msg)
    except Exception:
        pass


def _exc_ctor_copy(M, this, o, *a):
    M.excmsg[this[0]] = M.excmsg.get(o[0], "")


for _e in _EXC:
    for _c in ("C1", "C2"):
        H[f"@_ZNSt{len(_e)}{_e}{_c}EPKc"] = _exc_ctor
        H[f"@_ZNSt{len(_e)}{_e}{_c}ERKS_"] = _exc_ctor_copy
        H[f"@_ZNSt{len(_e)}{_e}{_c}EOS_"] = _exc_ctor_copy
    for _c in ("D0", "D1", "D2"):
        H[f"@_ZNSt{len(_e)}{_e}{_c}Ev"] = _nop


# ------------------------------------------------------------------ bridge
class KernelError(Exception):
    """memory-safety / GIL violation inside a kernel."""


class OutArray:
    __slots__ = ("shape", "kind")

    def __init__(self, shape, kind):
        self.shape = tuple(shape)
        self.kind = kind

    def __eq__(self, o):
        return self.shape == o.shape and self.kind == o.kind


_MODCACHE = {}


def source_path(repo="/repo"):
    return os.path.join(repo, "ext", "_hmmc.cpp")


def load_module(src=None, inline=False):
    src = src or source_path()
    key = (hashlib.sha256(open(src, "rb").read()).hexdigest(), inline)
    m = _MODCACHE.get(key)
    if m is None:
        fd, out = tempfile.mkstemp(suffix=".ll")
        os.close(fd)
        try:
            m = _MODCACHE[key] = llir.Module(llir.build_ir(src, out, inline))
        finally:
            os.unlink(out)
    return m


class Bridge:
    """callable kernels, e.g. bridge.forward_log(startprob, transmat, flp)."""

    def __init__(self, eng=None, domain=None, src=None, inline=False):
        self.eng = eng
        self.module = load_module(src, inline)
        self.domain = domain or SymDomain(eng)
        self.M = llir.Machine(self.module, self.domain,
                              eng if self.domain.mergeable else None)
        M = self.M
        M.nalloc = 0
        M.gil_events = 0
        M.arg_array = self._arg_array
        M.outs = []
        # register the module's functions
        m = Obj(64, "module")
        m.zero = True
        M.call("@__symx_module_init", [(m, 0)])
        self.names = sorted(M.registered)
        self.calls = {}
        for n in self.names:
            setattr(self, n, self._caller(n))

    def _caller(self, name):
        def kernel(*args, **kw):
            if kw:
                raise TypeError("kernels take positional arguments")
            return self.invoke(name, args)
        kernel.__name__ = name
        return kernel

    # ---- argument conversion (pybind11 caster semantics)
    def _arg_array(self, idx, flags, kind):
        M = self.M
        rep = self._reps[idx]
        if rep is None:
            raise CxxThrow(("@symx_TypeError", 0), None)
        if M.exp_arg_kinds is not None:
            M.exp_arg_kinds[idx] = kind
        return _convert(M, rep, flags, kind)

    def _layout(self, a, i):
        M = self.M
        if not isinstance(a, np.ndarray):
            try:
                a = np.asarray(a)
            except Exception:
                return None
        if a.ndim > 4:
            raise P.Unsupported("array with more than 4 dimensions")
        if a.dtype == object:
            kind, conv = 0, self.domain.value_in
        elif a.dtype.kind == "f":
            kind, conv = 0, lambda x: self.domain.lit(float(x))
        elif a.dtype.kind in "iu":
            kind, conv = 1, int
        elif a.dtype.kind == "b":
            kind, conv = 3, int
        else:
            return None
        if a.dtype.itemsize != 8:
            a = a.astype(np.float64 if kind == 0 else np.int64)
        st = list(a.strides)
        if a.size == 0:
            o = Obj(0, f"arg{i}{a.shape}")
            rep = mkrep(M, (o, 0), list(a.shape), contiguous(a.shape), kind,
                        f"arg{i}")
            return rep
        lo = sum(min(0, (n - 1) * s) for n, s in zip(a.shape, st))
        hi = sum(max(0, (n - 1) * s) for n, s in zip(a.shape, st)) + 8
        o = Obj(hi - lo, f"arg{i}{a.shape}")
        for ix in np.ndindex(*a.shape):
            off = sum(k * s for k, s in zip(ix, st)) - lo
            o.cells[off] = (conv(a[ix]), 8)
        o.havoc = None
        self._inputs.append((i, a, o, dict(o.cells), lo))
        return mkrep(M, (o, -lo), list(a.shape), st, kind, f"arg{i}")

    def _run(self, name, args):
        M = self.M
        M.outs = []
        M.args = args
        M.gil = True
        M.excmsg = {}
        M.exp_arg_kinds = None
        self._inputs = []
        self._reps = [self._layout(a, i) for i, a in enumerate(args)]
        wrapper, fn = M.registered[name]
        try:
            M.call(wrapper, [fn])
        except CxxThrow as e:
            ti = e.ti[0] if not isinstance(e.ti[0], Obj) else e.ti[0].name
            ti = str(ti)
            msg = M.excmsg.get(e.obj[0], "") if e.obj else ""
            if not M.gil and M.check_gil:
                raise GilViolation("exception propagated to Python with the "
                                   "GIL released")
            if "symx_IndexError" in ti or "out_of_range" in ti:
                ex = "IndexError"
            elif "symx_TypeError" in ti:
                ex = "TypeError"
            elif any(k in ti for k in ("invalid_argument", "range_error",
                                       "domain_error", "length_error",
                                       "value_error", "symx_ValueError")):
                ex = "ValueError"
            elif "overflow_error" in ti:
                ex = "OverflowError"
            else:
                ex = "RuntimeError"
            muts = self._mutations()
            return ("raise", ex, msg, tuple(m[0] for m in muts)), \
                [m[1] for m in muts]
        if not M.gil and M.check_gil:
            raise GilViolation("kernel returned with the GIL released")
        # flatten
        key = []
        vals = []
        for k, x in M.outs:
            if k == "a":
                data, sh, st, kind = rep_info(x)
                key.append(OutArray(sh, kind))
                for ix in np.ndindex(*sh):
                    p = llir.padd(data, sum(i * s for i, s in zip(ix, st)))
                    v = M.load(p, 8)
                    if v is UNDEF:
                        v = M.d.undef(p)
                    elif kind == 0 and type(v) is int:
                        v = M.loadf(p, 8)
                    vals.append(v)
            else:
                key.append(k)
                vals.append(x)
        muts = self._mutations()
        key = ("ok", tuple((k.shape, k.kind) if isinstance(k, OutArray) else k
                           for k in key), tuple(m[0] for m in muts))
        return key, vals + [m[1] for m in muts]

    def _mutations(self):
        out = []
        for i, a, o, before, lo in self._inputs:
            for off, c in o.cells.items():
                b = before.get(off)
                if b is None or b[0] is not c[0]:
                    out.append(((i, off + lo), c[0]))
        return out

    def invoke(self, name, args):
        if name not in self.M.registered:
            raise AttributeError(name)
        self.calls[name] = self.calls.get(name, 0) + 1
        n0 = self.M.instr
        if self.eng is not None and self.domain.mergeable:
            outs = self.eng.explore(lambda: self._run(name, args))
            outs = [(pc, k, v) for pc, (k, v) in outs]
            if len(outs) == 1:
                pc, key, vals = outs[0]
                for c in pc:
                    self.eng.add(c)
            else:
                key, vals, _ = merge.pick(self.eng,
                                          merge.group(self.eng, outs))
        else:
            key, vals = self._run(name, args)
        if self.eng is not None:
            self.eng.stats.instr += self.M.instr - n0
        nm = len(key[-1])
        if nm:
            self._write_back(args, key[-1], vals[len(vals) - nm:])
            vals = vals[:len(vals) - nm]
        if key[0] == "raise":
            raise {"ValueError": ValueError, "IndexError": IndexError,
                   "TypeError": TypeError, "RuntimeError": RuntimeError,
                   "OverflowError": OverflowError}[key[1]](key[2])
        res = []
        k = 0
        obj = self.domain.tag == "sym"
        for x in key[1]:
            if isinstance(x, tuple):
                sh, kind = x
                n = int(np.prod(sh, dtype=int))
                a = np.empty(sh, dtype=object if (obj and kind == 0) or any(
                    not isinstance(v, (int, float)) for v in vals[k:k + n])
                    else KIND_DTYPE[kind])
                for q, ix in enumerate(np.ndindex(*sh)):
                    a[ix] = vals[k + q]
                k += n
                res.append(a)
            else:
                res.append(vals[k])
                k += 1
        return res[0] if len(res) == 1 else tuple(res)

    def _write_back(self, args, where, vals):
        self.mutated = True
        for (i, off), v in zip(where, vals):
            a = args[i]
            if not isinstance(a, np.ndarray):
                continue
            for ix in np.ndindex(*a.shape):
                if sum(k * s for k, s in zip(ix, a.strides)) == off:
                    a[ix] = v


_ = (hashlib, MemViolation)
