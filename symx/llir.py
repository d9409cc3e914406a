"""Symbolic interpreter for the LLVM IR of /repo's C++ kernels.

The IR text (clang -S -emit-llvm of the unmodified source against the
pybind11 stand-in in shim/) is parsed and every basic block is compiled to a
Python function over a register list.  Floating-point values belong to a
*domain* (exact symbolic reals, z3 Float64 terms, havoc, or plain doubles);
integers are machine words (or symbolic integers), pointers are
(object, offset) pairs into a bounds-checked memory.
"""
import os
import re
import struct
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = "/usr/bin/clang++-18"
FLAGS = ["-w", "-std=c++11", "-O1", "-fno-inline", "-fno-vectorize",
         "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off",
         "-fno-discard-value-names", "-S", "-emit-llvm"]
# inlined and if-converted: conditional maxima become selects
FLAGS2 = [x for x in FLAGS if x != "-fno-inline"]
FLAGS2[FLAGS2.index("-O1")] = "-O2"


class IRError(Exception):
    pass


class MemViolation(Exception):
    """load/store outside an object, of freed or uninitialised memory."""


class GilViolation(Exception):
    pass


class CxxThrow(Exception):
    def __init__(self, ti, obj):
        self.ti = ti
        self.obj = obj


class MergeFail(Exception):
    """two sides of a branch cannot be joined; fork instead."""


def _plain(x):
    return type(x) is int or (type(x) is tuple and len(x) == 2
                              and type(x[1]) is int
                              and not hasattr(x[0], "sexpr"))


def _merge(M, c, a, b):
    if type(a) is tuple and type(b) is tuple:
        if a[0] is not b[0] or a[0] is None:
            if not (isinstance(a[0], Obj) and isinstance(b[0], Obj)):
                raise MergeFail()
            return (PIte(c, a, b), 0)
        return M.d.ite(c, a, b)
    if type(a) is tuple or type(b) is tuple:
        raise MergeFail()
    if a is UNDEF or b is UNDEF:
        raise MergeFail()
    return M.d.ite(c, a, b)


class PyThrow(Exception):
    """a Python exception raised by the numpy/pybind11 layer."""

    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind = kind


def build_ir(src, out, inline=False):
    r = subprocess.run([CLANG] + (FLAGS2 if inline else FLAGS) + ["-I", os.path.join(HERE, "shim"),
                                          src, "-o", out],
                       capture_output=True, text=True)
    if r.returncode:
        raise IRError("cannot lower the kernels to IR:\n" + r.stderr[-2000:])
    return open(out).read()


# ------------------------------------------------------------------ tokens
TOK = re.compile(r'''
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<var>[%@](?:"[^"]*"|[-\w.$]+))
 |(?P<meta>!(?:"[^"]*"|[-\w.]*))
 |(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|-?0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 |(?P<word>[A-Za-z_$.][\w.$]*)
 |(?P<attr>\#\d+)
 |(?P<dots>\.\.\.)
 |(?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        ch = s[pos]
        if ch in " \t\n":
            pos += 1
            continue
        if ch == ";":
            break
        m = TOK.match(s, pos)
        if not m:
            raise IRError(f"token at {s[pos:pos+40]!r}")
        out.append(m.group(0))
        pos = m.end()
    return out


# ------------------------------------------------------------------ types
# ('i',bits) ('double',) ('float',) ('ptr',) ('void',) ('struct',name|elems)
# ('array',n,t) ('label',) ('metadata',)
class Types:
    def __init__(self):
        self.named = {}

    def parse(self, toks, i):
        t = toks[i]
        if t == "ptr":
            i += 1
            if i < len(toks) and toks[i] == "addrspace":
                i += 4
            return ("ptr",), i
        if re.fullmatch(r"i\d+", t):
            return ("i", int(t[1:])), i + 1
        if t in ("double", "float", "void", "label", "metadata", "x86_fp80",
                 "half", "token"):
            return (t,), i + 1
        if t[0] == "%":
            return ("named", t), i + 1
        if t == "{":
            i += 1
            el = []
            while toks[i] != "}":
                x, i = self.parse(toks, i)
                el.append(x)
                if toks[i] == ",":
                    i += 1
            return ("struct", tuple(el), False), i + 1
        if t == "<":
            if toks[i + 1] == "{":
                x, i = self.parse(toks, i + 1)
                return ("struct", x[1], True), i + 1
            n = int(toks[i + 1])
            x, i = self.parse(toks, i + 3)
            return ("vector", n, x), i + 1
        if t == "[":
            n = int(toks[i + 1])
            x, i = self.parse(toks, i + 3)
            return ("array", n, x), i + 1
        if t == "opaque":
            return ("struct", (), False), i + 1
        raise IRError(f"type {toks[i:i+5]}")

    def resolve(self, t):
        while t[0] == "named":
            t = self.named[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == "i":
            b = max(1, (t[1] + 7) // 8)
            return 1 << (b - 1).bit_length()
        if k in ("ptr", "double"):
            return 8
        if k == "float":
            return 4
        if k == "x86_fp80":
            return 16
        if k == "array":
            return self.align(t[2])
        if k == "struct":
            if t[2]:
                return 1
            return max([self.align(x) for x in t[1]], default=1)
        raise IRError(f"align {t}")

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == "i":
            b = max(1, (t[1] + 7) // 8)
            return 1 << (b - 1).bit_length()
        if k in ("ptr", "double"):
            return 8
        if k == "float":
            return 4
        if k == "x86_fp80":
            return 16
        if k == "array":
            return t[1] * self.size(t[2])
        if k == "struct":
            off = 0
            for x in t[1]:
                if not t[2]:
                    a = self.align(x)
                    off = (off + a - 1) // a * a
                off += self.size(x)
            a = self.align(t)
            return (off + a - 1) // a * a
        raise IRError(f"size {t}")

    def field(self, t, i):
        t = self.resolve(t)
        if t[0] == "array":
            return i * self.size(t[2]), t[2]
        off = 0
        for j, x in enumerate(t[1]):
            if not t[2]:
                a = self.align(x)
                off = (off + a - 1) // a * a
            if j == i:
                return off, x
            off += self.size(x)
        raise IRError("field")


# ------------------------------------------------------------------ memory
class Obj:
    __slots__ = ("size", "cells", "name", "alive", "zero", "ro", "tag",
                 "lo", "havoc")
    n = 0

    def __init__(self, size, name, zero=False):
        self.size = size
        self.cells = {}
        self.name = name
        self.alive = True
        self.zero = zero
        self.ro = False
        self.tag = None
        self.lo = 0
        self.havoc = None

    def __repr__(self):
        return f"<{self.name}:{self.size}>"


class PIte:
    """pointer that is p when c holds, else q."""
    __slots__ = ("c", "p", "q")

    def __init__(self, c, p, q):
        self.c, self.p, self.q = c, p, q


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()
NULL = (None, 0)


def is_sym(x):
    return type(x) is not int


# ------------------------------------------------------------------ module
class Function:
    def __init__(self, name, ret, params):
        self.name = name
        self.ret = ret
        self.params = params      # list of (type, regname, attrs)
        self.blocks = []          # (label, [instr token lists])
        self.code = None
        self.nregs = 0
        self.regs = {}


class Module:
    def __init__(self, text):
        self.types = Types()
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.gdefs = {}
        self.aliases = {}
        self._parse(text)

    def _parse(self, text):
        lines = text.split("\n")
        i = 0
        T = self.types
        pend = []
        while i < len(lines):
            ln = lines[i]
            if ln.startswith("%") and " = type " in ln:
                name, rest = ln.split(" = type ", 1)
                pend.append((name, rest))
            elif ln.startswith("@"):
                self._global(ln)
            elif ln.startswith("declare"):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\s*\(', ln)
                self.decls["@" + m.group(1)] = ln
            elif ln.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self._function(lines[i], lines[i + 1:j])
                i = j
            i += 1
        for name, rest in pend:
            t, _ = T.parse(tokenize(rest), 0)
            T.named[name] = t

    def _global(self, ln):
        m = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*)$', ln)
        name, rest = m.group(1), m.group(2)
        if re.search(r"\balias\b", rest):
            t = re.findall(r'@(?:"[^"]*"|[-\w.$]+)', rest)
            self.aliases[name] = t[-1]
            return
        self.gdefs[name] = rest

    def _function(self, head, body):
        toks = tokenize(head)
        k = next(i for i, t in enumerate(toks) if t[0] == "@")
        name = toks[k]
        # return type: walk back is awkward; parse from after linkage words
        j = 1
        while True:
            t = toks[j]
            if t in ("ptr", "void", "double", "float") or \
                    re.fullmatch(r"i\d+", t) or t[0] in "%{[<":
                break
            j += 1
            if toks[j] == "(":
                d = 0
                while True:
                    if toks[j] == "(":
                        d += 1
                    elif toks[j] == ")":
                        d -= 1
                        if d == 0:
                            j += 1
                            break
                    j += 1
        ret, _ = self.types.parse(toks, j)
        i = k + 2
        params = []
        n = 0
        while toks[i] != ")":
            if toks[i] == "...":
                i += 1
                continue
            t, i = self.types.parse(toks, i)
            reg = None
            attrs = []
            while toks[i] not in (",", ")"):
                if toks[i][0] == "%":
                    reg = toks[i]
                    i += 1
                elif toks[i] == "(":
                    d = 0
                    while True:
                        if toks[i] == "(":
                            d += 1
                        elif toks[i] == ")":
                            d -= 1
                        i += 1
                        if d == 0:
                            break
                else:
                    attrs.append(toks[i])
                    i += 1
            if reg is None:
                reg = f"%{n}"
            n += 1
            params.append((t, reg, attrs))
            if toks[i] == ",":
                i += 1
        f = Function(name, ret, params)
        unnamed = sum(1 for _, r, _ in params if re.fullmatch(r"%\d+", r))
        cur = (str(unnamed), [])
        first = True
        buf = None
        for ln in body:
            s = ln.strip()
            if not s or s.startswith(";"):
                continue
            m = re.match(r'^("[^"]*"|[-\w.$]+):', ln)
            if m and not ln.startswith(" "):
                if not first or cur[1]:
                    f.blocks.append(cur)
                cur = (m.group(1), [])
                first = False
                continue
            if buf is not None:
                buf += " " + s
                if self._complete(buf):
                    cur[1].append(tokenize(buf))
                    buf = None
                continue
            if s.startswith(("cleanup", "catch ", "filter ", "to label")):
                cur[1][-1].extend(tokenize(s))
                continue
            if not self._complete(s):
                buf = s
                continue
            cur[1].append(tokenize(s))
        f.blocks.append(cur)
        self.funcs[name] = f

    @staticmethod
    def _complete(s):
        q = re.sub(r'"(?:[^"\\]|\\.)*"', "", s)
        return q.count("[") == q.count("]") and q.count("(") == q.count(")")


def fp_literal(t):
    if t.startswith("0x"):
        return struct.unpack(">d", bytes.fromhex(t[2:].rjust(16, "0")))[0]
    return float(t)


def wrap(x, bits):
    if type(x) is not int:
        return x
    m = 1 << bits
    x &= m - 1
    if bits > 1 and x >> (bits - 1):
        x -= m
    return x


def uns(x, bits):
    if type(x) is int:
        return x & ((1 << bits) - 1)
    return x


def _wadd(a, b, n):
    return wrap(a + b, n)


# ------------------------------------------------------------------ machine
class Machine:
    """executes functions of a Module in one value domain."""

    def __init__(self, module, domain, engine=None):
        self.m = module
        self.d = domain
        self.eng = engine
        self.globals = {}
        self.handlers = {}
        self.registered = {}
        self.journal = None
        self.nomerge = set()
        self.gil = True
        self.instr = 0
        self.max_instr = 20_000_000
        self.used = set()
        self.args = None
        self.outs = None
        self.reps = []
        self.check_gil = True
        from . import kernels
        kernels.install(self)

    # -- memory
    def alloc(self, size, name, zero=False):
        o = Obj(size, name, zero)
        return (o, 0)

    def store(self, p, v, size):
        o, off = p
        if o is None:
            raise MemViolation("write through a null pointer")
        if type(o) is str:
            raise MemViolation("write to code")
        if type(o) is PIte:
            for x, c in ((o.p, o.c), (o.q, self.d.bnot(o.c))):
                x = padd(x, off)
                old = self.load(x, size)
                self.store(x, self.d.ite(c, v, old), size)
            return
        if not o.alive:
            raise MemViolation(f"write to freed {o.name}")
        if o.havoc is not None:
            return o.havoc.store(o, off, v, size)
        if type(off) is not int:
            off = self.d.sym_offset(self, o, off, size, "write")
        if off < o.lo or off + size > o.size:
            raise MemViolation(
                f"write of {size} bytes at offset {off} of {o.name} "
                f"[{o.lo},{o.size})")
        if o.ro:
            raise MemViolation(f"write to read-only {o.name}")
        if self.journal is not None:
            self.journal.append((o, off, o.cells.get(off)))
        o.cells[off] = (v, size)

    def load(self, p, size):
        o, off = p
        if o is None:
            raise MemViolation("read through a null pointer")
        if type(o) is str:
            raise MemViolation("read of code")
        if type(o) is PIte:
            a = self.load(padd(o.p, off), size)
            b = self.load(padd(o.q, off), size)
            if a is UNDEF or b is UNDEF:
                return b if a is UNDEF else a
            return _merge(self, o.c, a, b)
        if not o.alive:
            raise MemViolation(f"read of freed {o.name}")
        if o.havoc is not None:
            return o.havoc.load(o, off, size)
        if type(off) is not int:
            return self.d.sym_load(self, o, off, size)
        if off < o.lo or off + size > o.size:
            raise MemViolation(
                f"read of {size} bytes at offset {off} of {o.name} "
                f"[{o.lo},{o.size})")
        c = o.cells.get(off)
        if c is None:
            if o.zero:
                return 0
            return self._load_odd(o, off, size)
        if c[1] != size:
            return self._load_odd(o, off, size)
        return c[0]

    def _load_odd(self, o, off, size):
        c = o.cells.get(off)
        if c is None:
            # inside a wider cell or never written
            for base in range(off - 7, off):
                w = o.cells.get(base)
                if w is not None and base + w[1] > off:
                    if type(w[0]) is int:
                        b = (w[0] & ((1 << (8 * w[1])) - 1)).to_bytes(
                            w[1], "little")
                        k = off - base
                        if k + size <= w[1]:
                            return wrap(int.from_bytes(b[k:k + size],
                                                       "little"), 8 * size)
                    raise IRError("load inside a wider cell")
            bs = [o.cells.get(off + k) for k in range(size)]
            if any(x is not None for x in bs):
                raise IRError("partial load")
            return UNDEF
        v, n = c
        if type(v) is int and n > size:
            return wrap(v, 8 * size)
        if n < size:
            bs = []
            k = off
            while k < off + size:
                x = o.cells.get(k)
                if x is None or type(x[0]) is not int:
                    raise IRError("mixed load")
                bs.append((x[0] & ((1 << (8 * x[1])) - 1)).to_bytes(
                    x[1], "little"))
                k += x[1]
            return wrap(int.from_bytes(b"".join(bs)[:size], "little"),
                        8 * size)
        raise IRError(f"load of size {size} from cell of size {n}")

    def loadf(self, p, size):
        v = self.load(p, size)
        if v is UNDEF:
            return self.d.undef(p)
        if type(v) is int:
            if v == 0:
                return self.d.lit(0.0)
            return self.d.lit(struct.unpack(
                "<d", (v & (2**64 - 1)).to_bytes(8, "little"))[0])
        return v

    def loadi(self, p, size):
        v = self.load(p, size)
        if v is UNDEF:
            raise MemViolation(f"read of uninitialised memory in {p[0].name}"
                               f" at offset {p[1]}")
        return v

    def memcpy(self, d, s, n):
        if n == 0:
            return
        do, doff = d
        so, soff = s
        for o, off, w in ((do, doff, "write"), (so, soff, "read")):
            if o is None or type(o) is str:
                raise MemViolation(f"memcpy {w} through a bad pointer")
            if not o.alive or off < o.lo or off + n > o.size:
                raise MemViolation(f"memcpy {w} of {n} bytes at {off} of "
                                   f"{o.name} [{o.lo},{o.size})")
        items = [(k, c) for k, c in so.cells.items() if soff <= k < soff + n]
        for k in [k for k in do.cells if doff <= k < doff + n]:
            if self.journal is not None:
                self.journal.append((do, k, do.cells[k]))
            del do.cells[k]
        for k, (v, sz) in items:
            self.store((do, doff + k - soff), v, sz)

    def memset(self, p, b, n):
        o, off = p
        if n == 0:
            return
        if o is None or not o.alive or off < o.lo or off + n > o.size:
            raise MemViolation(f"memset of {n} bytes at {off} of {o}")
        b &= 255
        k = 0
        while k < n:
            w = 8 if n - k >= 8 else 1
            self.store((o, off + k), wrap(int.from_bytes(bytes([b]) * w,
                                                         "little"), 8 * w), w)
            k += w

    # -- globals
    def glob(self, name):
        name = self.m.aliases.get(name, name)
        if name in self.m.funcs or name in self.m.decls:
            return (name, 0)
        p = self.globals.get(name)
        if p is None:
            rest = self.m.gdefs.get(name)
            if rest is None:
                raise IRError(f"global {name}")
            p = self._mkglobal(name, rest)
            self.globals[name] = p
        return p

    def _mkglobal(self, name, rest):
        toks = tokenize(rest)
        k = 0
        while toks[k] not in ("constant", "global"):
            k += 1
        t, i = self.m.types.parse(toks, k + 1)
        o = Obj(self.m.types.size(t), name)
        if "external" in toks[:k]:
            o.zero = True
            return (o, 0)
        self._init(o, 0, t, toks, i)
        return (o, 0)

    def _init(self, o, off, t, toks, i):
        r = self.m.types.resolve(t)
        tok = toks[i]
        if tok in ("zeroinitializer", "undef", "poison"):
            o.zero = True
            return i + 1
        if r[0] == "array" and tok.startswith('c"'):
            b = re.sub(rb"\\([0-9A-Fa-f]{2})",
                       lambda m: bytes([int(m.group(1), 16)]),
                       tok[2:-1].encode())
            for j, x in enumerate(b):
                o.cells[off + j] = (wrap(x, 8), 1)
            return i + 1
        if r[0] == "array" or r[0] == "struct":
            i += 1
            j = 0
            while toks[i] not in ("]", "}"):
                et, i = self.m.types.parse(toks, i)
                fo, _ = self.m.types.field(r, j)
                i = self._init(o, off + fo, et, toks, i)
                j += 1
                if toks[i] == ",":
                    i += 1
            return i + 1
        sz = self.m.types.size(r)
        if r[0] in ("double",):
            o.cells[off] = (self.d.lit(fp_literal(tok)), sz)
        elif r[0] == "i":
            v = {"true": 1, "false": 0}.get(tok)
            o.cells[off] = (wrap(int(tok) if v is None else v, r[1]), sz)
        elif r[0] == "ptr":
            if tok == "null":
                o.cells[off] = (NULL, sz)
            else:
                o.cells[off] = (self.glob(tok), sz)
        else:
            raise IRError("global init")
        return i + 1

    def cstr(self, p):
        o, off = p
        bs = []
        while True:
            c = o.cells.get(off)
            if c is None or c[0] == 0:
                break
            bs.append(c[0] & 255)
            off += 1
        return bytes(bs).decode("latin1")

    # -- calls
    def call(self, name, args):
        name = self.m.aliases.get(name, name)
        h = self.handlers.get(name)
        if h is not None:
            return h(self, *args)
        f = self.m.funcs.get(name)
        if f is None:
            return self._external(name, args)
        if f.ret[0] == "double" and self.eng is not None \
                and name not in self.nomerge and self.d.mergeable:
            return self._merged(f, args)
        return self.run(f, args)

    def _external(self, name, args):
        if name.startswith("@llvm."):
            for k, h in self.handlers.items():
                if k.startswith("@llvm.") and name.startswith(k):
                    return h(self, *args)
        raise IRError(f"call to unmodelled external {name}")

    def run(self, f, args):
        if f.code is None or f.code[0] is not self.d.tag:
            f.code = (self.d.tag, compile_function(self, f))
        blocks, nregs, pregs, phis, ipd = f.code[1]
        self.used.add(f.name)
        r = [None] * nregs
        for k, v in zip(pregs, args):
            r[k] = v
        b, prev = 0, -1
        while True:
            q = phis[b]
            if q is not None and prev != -2:
                q(r, self, prev)
            b, prev, ret = blocks[b](r, self, prev)
            while b == -1:
                b, prev, ret = self._symbranch(f, r, prev, ret)
            if b is None:
                return ret

    # -- conditional branch on a symbolic condition (z3 domains)
    def _symbranch(self, f, r, bi, cond):
        c, t1, t2 = cond
        blocks, nregs, pregs, phis, ipd = f.code[1]
        eng = self.d.eng
        k = eng.decided(c)
        if k is not None:
            return (t1 if k else t2), bi, None
        join = ipd[bi]
        if join is not None and join < len(blocks):
            try:
                self._ifconvert(f, r, bi, c, t1, t2, join)
                self.merged = getattr(self, "merged", 0) + 1
                return join, -2, None
            except MergeFail:
                pass
        if eng.in_merge:
            raise MergeFail()
        return (t1 if eng.branch(c) else t2), bi, None

    def _side(self, f, r, bi, t, join, c):
        """run from block t up to the phis of join; -> regs, writes."""
        blocks, nregs, pregs, phis, ipd = f.code[1]
        r = list(r)
        outer = self.journal
        self.journal = []
        gil, pend = self.gil, self.pending
        eng = self.d.eng
        eng.push_merge(c)
        ok = False
        try:
            b, prev = t, bi
            n = 0
            while b != join:
                if phis[b] is not None and prev != -2:
                    phis[b](r, self, prev)
                b, prev, ret = blocks[b](r, self, prev)
                while b == -1:
                    b, prev, ret = self._symbranch(f, r, prev, ret)
                n += 1
                if b is None or n > 60:
                    raise MergeFail()
            if phis[join] is not None and prev != -2:
                phis[join](r, self, prev)
            ok = self.gil == gil
        except (CxxThrow, MemViolation):
            raise MergeFail()
        finally:
            eng.pop_merge()
            j = self.journal
            self.journal = outer
            writes = {}
            for o, off, old in j:
                writes.setdefault((id(o), off), (o, off, o.cells.get(off)))
            for o, off, old in reversed(j):
                if old is None:
                    o.cells.pop(off, None)
                else:
                    o.cells[off] = old
            self.gil, self.pending = gil, pend
        if not ok:
            raise MergeFail()
        return r, writes

    def _ifconvert(self, f, r, bi, c, t1, t2, join):
        ite = self.d.ite
        r1, w1 = self._side(f, r, bi, t1, join, c)
        r2, w2 = self._side(f, r, bi, t2, join, self.d.bnot(c))
        new = []
        for a, b in zip(r1, r2):
            if a is b or (type(a) is type(b) and type(a) in (int, tuple)
                          and _plain(a) and _plain(b) and a == b):
                new.append(a)
            elif a is None or b is None:
                new.append(a if b is None else b)
            else:
                new.append(_merge(self, c, a, b))
        mem = []
        for key in {**w1, **w2}:
            o, off, _ = (w1.get(key) or w2.get(key))
            cur = o.cells.get(off)
            a = w1[key][2] if key in w1 else cur
            b = w2[key][2] if key in w2 else cur
            if a is None or b is None:
                mem.append((o, off, a or b))
            elif a is b or a[0] is b[0]:
                mem.append((o, off, a))
            elif a[1] != b[1]:
                raise MergeFail()
            else:
                mem.append((o, off, (_merge(self, c, a[0], b[0]), a[1])))
        for o, off, cell in mem:
            if cell is None:
                continue
            if self.journal is not None:
                self.journal.append((o, off, o.cells.get(off)))
            o.cells[off] = cell
        r[:] = new

    def _merged(self, f, args):
        """explore f as a sub-problem and join its paths when their results
        agree on the paths' own conditions."""
        from . import merge
        eng = self.eng
        outer = self.journal
        marks = []

        def thunk():
            self.journal = []
            try:
                v = self.run(f, args)
            except CxxThrow as e:
                v = e
            finally:
                j = self.journal
                self.journal = None
                marks.append([x for x in j if x[0].tag is not eng])
                for o, off, old in reversed(j):
                    if old is None:
                        o.cells.pop(off, None)
                    else:
                        o.cells[off] = old
            return v
        fresh0 = Obj.n
        outs = eng.explore(thunk)
        self.journal = outer
        _ = fresh0
        if any(not self._only_local(m) for m in marks) or \
                any(isinstance(v, CxxThrow) for _, v in outs):
            self.nomerge.add(f.name)
            return self.run(f, args)
        if len(outs) == 1:
            for c in outs[0][0]:
                eng.add(c)
            return outs[0][1]
        return merge.join_scalar(eng, outs)

    @staticmethod
    def _only_local(marks):
        return all(o.tag == "stack" for o, _, _ in marks)


# ------------------------------------------------------------------ compiler
class FnCompiler:
    def __init__(self, mach, f):
        self.mach = mach
        self.m = mach.m
        self.T = mach.m.types
        self.f = f
        self.regs = {}
        self.consts = []
        self.labels = {lbl.strip('"'): i for i, (lbl, _) in enumerate(f.blocks)}

    def reg(self, name):
        k = self.regs.get(name)
        if k is None:
            k = self.regs[name] = len(self.regs)
        return k

    def const(self, v):
        self.consts.append(v)
        return f"K[{len(self.consts) - 1}]"

    # operand of a given type -> python expression
    def val(self, t, toks, i):
        tok = toks[i]
        t = self.T.resolve(t)
        if tok[0] == "%":
            return f"r[{self.reg(tok)}]", i + 1
        if tok[0] == "@":
            return self.const(self.mach.glob(tok)), i + 1
        k = t[0]
        if tok in ("undef", "poison", "zeroinitializer"):
            if k == "double" or k == "float":
                return self.const(self.mach.d.lit(0.0)), i + 1
            if k == "ptr":
                return self.const(NULL), i + 1
            if k == "i":
                return "0", i + 1
            if k == "struct":
                return self.const(tuple([None] * len(t[1]))), i + 1
            if k == "array":
                return self.const(tuple([None] * t[1])), i + 1
        if k in ("double", "float"):
            return self.const(self.mach.d.lit(fp_literal(tok))), i + 1
        if k == "i":
            v = {"true": 1, "false": 0}.get(tok)
            v = wrap(int(tok), t[1]) if v is None else v
            return repr(v), i + 1
        if k == "ptr":
            if tok == "null":
                return self.const(NULL), i + 1
            if tok == "getelementptr":
                j = i + 1
                while toks[j] in ("inbounds", "nuw", "nusw"):
                    j += 1
                j += 1
                bt, j = self.T.parse(toks, j)
                j += 1
                pt, j = self.T.parse(toks, j)
                base, j = self.val(pt, toks, j)
                off = 0
                cur = bt
                first = True
                while toks[j] == ",":
                    it, j = self.T.parse(toks, j + 1)
                    n = int(toks[j])
                    j += 1
                    if first:
                        off += n * self.T.size(bt)
                        first = False
                    else:
                        o, cur = self.T.field(cur, n)
                        off += o
                return f"padd({base}, {off})", j + 1
            if tok == "inttoptr":
                return self.const(NULL), self._skip(toks, i + 1)
        raise IRError(f"operand {t} {toks[i:i+6]}")

    def _skip(self, toks, i):
        d = 0
        while True:
            if toks[i] == "(":
                d += 1
            elif toks[i] == ")":
                d -= 1
            i += 1
            if d == 0:
                return i

    def arg(self, toks, i):
        """type attrs value"""
        t, i = self.T.parse(toks, i)
        if t[0] == "metadata":
            while toks[i] not in (",", ")"):
                i += 1
            return t, "None", i
        while True:
            tok = toks[i]
            if tok[0] in "%@" or tok[0].isdigit() or \
                    (tok[0] == "-" and len(tok) > 1) or \
                    tok in ("null", "undef", "poison", "true", "false",
                            "zeroinitializer", "getelementptr", "inttoptr"):
                break
            i += 1
            if toks[i] == "(":
                i = self._skip(toks, i)
            elif tok == "align":
                i += 1
        e, i = self.val(t, toks, i)
        return t, e, i

    def find_isinf(self):
        """registers holding fabs(x) that only feed comparisons with inf:
        resolved as isinf(x), which does not ask for the sign of x."""
        src, uses = {}, {}
        for _, ins in self.f.blocks:
            for p in ins:
                if len(p) > 2 and p[1] == "=" and "@llvm.fabs.f64" in p:
                    k = p.index("@llvm.fabs.f64")
                    xs = [t for t in p[k + 2:] if t[0] == "%"]
                    if len(xs) == 1:
                        src[p[0]] = xs[0]
        for _, ins in self.f.blocks:
            for p in ins:
                for j, t in enumerate(p):
                    if t in src and not (j == 0 and p[1] == "="):
                        ok = "fcmp" in p[:4] and "0x7FF0000000000000" in p \
                            and ("oeq" in p or "une" in p)
                        uses[t] = uses.get(t, True) and ok
        self.isinf = {r: x for r, x in src.items() if uses.get(r)}

    def compile(self):
        self.find_isinf()
        fns = []
        src = []
        for bi, (lbl, ins) in enumerate(self.f.blocks):
            phis, body = self.block(bi, ins)
            src.append(f"def q{bi}(r, M, prev):\n" + "\n".join(
                "    " + x for x in (phis or ["pass"])))
            src.append(f"def b{bi}(r, M, prev):\n" + "\n".join(
                "    " + x for x in body))
        pregs = [self.reg(p[1]) for p in self.f.params]
        ns = {"K": self.consts, "padd": padd, "CxxThrow": CxxThrow,
              "wrap": wrap, "uns": uns, "IRError": IRError, "peq": peq,
              "idiv": idiv, "gepi": gepi, "icmp": icmp, "alloca": alloca,
              "ins": insv, "isub": isub, "bbop": bbop, "sx1": sx1, "zx1": zx1, "tr1": tr1, "iadd": iadd, "pcmp": pcmp, "ib": ib}
        code = "\n".join(src)
        exec(compile(code, f"<{self.f.name}>", "exec"), ns)
        phis = []
        for bi, (lbl, ins) in enumerate(self.f.blocks):
            fns.append(ns[f"b{bi}"])
            phis.append(ns[f"q{bi}"] if ins and len(ins[0]) > 2
                        and ins[0][2] == "phi" else None)
        return fns, len(self.regs) + 1, pregs, phis, self.ipdoms()

    def ipdoms(self):
        """immediate post-dominators over normal (non-unwind) edges."""
        n = len(self.f.blocks)
        succ = []
        for lbl, ins in self.f.blocks:
            p = ins[-1]
            if p[0] == "br":
                succ.append([self.labels[p[k + 1][1:].strip('"')]
                             for k, t in enumerate(p) if t == "label"])
            elif p[0] == "switch":
                succ.append([self.labels[p[k + 1][1:].strip('"')]
                             for k, t in enumerate(p) if t == "label"])
            elif "invoke" in p[:4]:
                k = len(p) - 1 - p[::-1].index("to")
                succ.append([self.labels[p[k + 2][1:].strip('"')]])
            elif p[0] == "ret":
                succ.append([n])
            else:
                succ.append(None)          # unreachable / resume
        full = (1 << (n + 1)) - 1
        pd = [full] * n + [1 << n]
        changed = True
        while changed:
            changed = False
            for b in range(n - 1, -1, -1):
                ss = succ[b]
                if ss is None:
                    continue
                m = full
                for x in ss:
                    m &= pd[x]
                m |= 1 << b
                if m != pd[b]:
                    pd[b] = m
                    changed = True
        out = [None] * n
        for b in range(n):
            m = pd[b] & ~(1 << b)
            if succ[b] is None or pd[b] == full:
                continue
            best = None
            for x in range(n + 1):
                if m >> x & 1 and (pd[x] & m) == m:
                    best = x
            out[b] = best
        return out

    def block(self, bi, ins):
        out = []
        pre = []
        phis = []
        n = len(ins)
        out.append(f"M.instr += {n}")
        out.append("if M.instr > M.max_instr: raise IRError('instruction budget')")
        k = 0
        while k < n and len(ins[k]) > 2 and ins[k][2] == "phi":
            phis.append(ins[k])
            k += 1
        if phis:
            by = {}
            for p in phis:
                dst = self.reg(p[0])
                t, i = self.T.parse(p, 3)
                while i < len(p) and p[i] == "[":
                    e, i2 = self.val(t, p, i + 1)
                    lbl = p[i2 + 1]
                    src = self.labels[lbl[1:].strip('"')]
                    by.setdefault(src, []).append((dst, e))
                    i = i2 + 3
                    if i < len(p) and p[i] == ",":
                        i += 1
                    if i < len(p) and p[i] != "[":
                        break
            first = True
            for src, asg in by.items():
                seen = {}
                for d, e in asg:
                    seen[d] = e
                pre.append(f"{'if' if first else 'elif'} prev == {src}:")
                first = False
                lhs = ", ".join(f"r[{d}]" for d in seen)
                rhs = ", ".join(seen.values())
                pre.append(f"    {lhs}{',' if len(seen) == 1 else ''} = "
                           f"{rhs}{',' if len(seen) == 1 else ''}")
        for p in ins[k:]:
            self.instr(bi, p, out)
        return pre, out

    def goto(self, bi, tok):
        return f"return {self.labels[tok[1:].strip(chr(34))]}, {bi}, None"

    def instr(self, bi, p, out):
        dst = None
        i = 0
        if len(p) > 1 and p[1] == "=":
            dst = f"r[{self.reg(p[0])}]"
            i = 2
        op = p[i]
        while op in ("tail", "musttail", "notail"):
            i += 1
            op = p[i]
        i += 1
        T = self.T

        def flags(i):
            while p[i] in ("nuw", "nsw", "exact", "fast", "nnan", "ninf",
                           "nsz", "arcp", "contract", "reassoc", "afn",
                           "inbounds", "volatile", "disjoint", "nneg",
                           "nusw", "samesign"):
                i += 1
            return i
        if op == "ret":
            if p[i] == "void":
                out.append("return None, None, None")
            else:
                t, e, _ = self.arg(p, i)
                out.append(f"return None, None, {e}")
            return
        if op == "br":
            if p[i] == "label":
                out.append(self.goto(bi, p[i + 1]))
            else:
                e, j = self.val(("i", 1), p, i + 1)
                t1 = self.labels[p[j + 2][1:].strip('"')]
                t2 = self.labels[p[j + 5][1:].strip('"')]
                out.append(f"if type({e}) is not int: "
                           f"return -1, {bi}, ({e}, {t1}, {t2})")
                out.append(f"if {e}:")
                out.append("    " + self.goto(bi, p[j + 2]))
                out.append(self.goto(bi, p[j + 5]))
            return
        if op == "switch":
            t, e, j = self.arg(p, i)
            default = p[j + 2]
            j += 4
            out.append(f"_s = {e}")
            while p[j] != "]":
                tt, c, j = self.arg(p, j)
                out.append(f"if ib(M, icmp(M, 'eq', _s, {c}, 64)):")
                out.append("    " + self.goto(bi, p[j + 2]))
                j += 3
            out.append(self.goto(bi, default))
            return
        if op == "unreachable":
            out.append("raise IRError('unreachable reached')")
            return
        if op == "resume":
            t, e, _ = self.arg(p, i)
            out.append(f"raise CxxThrow({e}[0][0], {e}[0][1])")
            return
        if op == "call" and i > 1 and p[0] in self.isinf:
            return
        if op in ("call", "invoke"):
            self.call(bi, op, p, i, dst, out)
            return
        if op == "landingpad":
            # value produced by the invoke that jumped here
            out.append(f"{dst} = M.pending")
            return
        if op == "load":
            i = flags(i)
            t, i = T.parse(p, i)
            pt, e, i = self.arg(p, i + 1)
            t = T.resolve(t)
            sz = T.size(t)
            if t[0] in ("double", "float"):
                out.append(f"{dst} = M.loadf({e}, {sz})")
            elif t[0] in ("struct", "array"):
                raise IRError("aggregate load")
            else:
                out.append(f"{dst} = M.loadi({e}, {sz})")
            return
        if op == "store":
            i = flags(i)
            t, e, i = self.arg(p, i)
            pt, q, i = self.arg(p, i + 1)
            t = T.resolve(t)
            if t[0] in ("struct", "array"):
                els = t[1] if t[0] == "struct" else [t[2]] * t[1]
                for j, x in enumerate(els):
                    fo, _ = T.field(t, j)
                    out.append(f"M.store(padd({q}, {fo}), {e}[{j}], "
                               f"{T.size(x)})")
                return
            out.append(f"M.store({q}, {e}, {T.size(t)})")
            return
        if op == "alloca":
            t, i = T.parse(p, i)
            sz = T.size(t)
            cnt = "1"
            if i < len(p) and p[i] == "," and p[i + 1] != "align":
                tt, cnt, i = self.arg(p, i + 1)
            out.append(f"{dst} = alloca(M, {sz}, {cnt}, {p[0]!r})")
            return
        if op == "getelementptr":
            i = flags(i)
            bt, i = T.parse(p, i)
            pt, base, i = self.arg(p, i + 1)
            cur = bt
            parts = []
            off = 0
            first = True
            while i < len(p) and p[i] == ",":
                if p[i + 1][0] == "!":
                    break
                it, e, i = self.arg(p, i + 1)
                if first:
                    sz = T.size(bt)
                    first = False
                else:
                    rc = T.resolve(cur)
                    if rc[0] == "array":
                        sz = T.size(rc[2])
                        cur = rc[2]
                    else:
                        fo, cur = T.field(rc, int(e))
                        off += fo
                        continue
                if re.fullmatch(r"-?\d+", e):
                    off += int(e) * sz
                else:
                    parts.append(f"{e}*{sz}" if sz != 1 else e)
            expr = " + ".join(parts + ([str(off)] if off or not parts else []))
            out.append(f"{dst} = padd({base}, {expr})")
            return
        if op in ("add", "sub", "mul", "shl"):
            i = flags(i)
            t, a, i = self.arg(p, i)
            b, i = self.val(t, p, i + 1)
            n = t[1]
            if op == "shl":
                out.append(f"{dst} = wrap({a} * (1 << {b}), {n})")
            else:
                if op == "mul":
                    out.append(f"{dst} = wrap({a} * {b}, {n})")
                else:
                    out.append(f"{dst} = i{op}({a}, {b}, {n})")
            return
        if op in ("and", "or", "xor"):
            i = flags(i)
            t, a, i = self.arg(p, i)
            b, i = self.val(t, p, i + 1)
            o = {"and": "&", "or": "|", "xor": "^"}[op]
            n = t[1]
            if n == 1:
                out.append(f"{dst} = bbop(M, {op!r}, {a}, {b})")
            else:
                out.append(f"{dst} = wrap(uns({a}, {n}) {o} uns({b}, {n}), {n})")
            return
        if op in ("lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            i = flags(i)
            t, a, i = self.arg(p, i)
            b, i = self.val(t, p, i + 1)
            out.append(f"{dst} = idiv(M, {op!r}, {a}, {b}, {t[1]})")
            return
        if op == "icmp":
            if p[i] == "samesign":
                i += 1
            pred = p[i]
            t, a, i = self.arg(p, i + 1)
            b, i = self.val(t, p, i + 1)
            t = T.resolve(t)
            if t[0] == "ptr":
                out.append(f"{dst} = pcmp(M, {pred!r}, {a}, {b})")
            else:
                out.append(f"{dst} = icmp(M, {pred!r}, {a}, {b}, {t[1]})")
            return
        if op == "fcmp":
            i = flags(i)
            pred = p[i]
            j = i + 2
            t, a, i = self.arg(p, i + 1)
            b, i = self.val(t, p, i + 1)
            if p[j] in self.isinf:
                e = f"M.d.fn('isinf', r[{self.reg(self.isinf[p[j]])}])"
                if pred == "une":
                    e = f"1 - {e}"
                out.append(f"{dst} = {e}")
                return
            out.append(f"{dst} = M.d.fcmp({pred!r}, {a}, {b})")
            return
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            i = flags(i)
            t, a, i = self.arg(p, i)
            b, i = self.val(t, p, i + 1)
            out.append(f"{dst} = M.d.{op}({a}, {b})")
            return
        if op == "fneg":
            i = flags(i)
            t, a, i = self.arg(p, i)
            out.append(f"{dst} = M.d.fneg({a})")
            return
        if op == "select":
            i = flags(i)
            t, c, i = self.arg(p, i)
            t1, a, i = self.arg(p, i + 1)
            t2, b, i = self.arg(p, i + 1)
            out.append(f"{dst} = ({a} if {c} else {b}) if type({c}) is int "
                       f"else M.d.ite({c}, {a}, {b})")
            return
        if op in ("sext", "zext", "trunc", "bitcast", "freeze", "sitofp",
                  "uitofp", "fptosi", "fptoui", "ptrtoint", "inttoptr",
                  "fpext", "fptrunc"):
            i = flags(i)
            t, a, i = self.arg(p, i)
            if op == "freeze":
                out.append(f"{dst} = {a}")
                return
            t2, _ = T.parse(p, i + 1)
            if op == "sext":
                out.append(f"{dst} = " + (f"sx1(M, {a})" if t[1] == 1
                                          else a))
            elif op == "zext":
                out.append(f"{dst} = " + (f"zx1(M, {a})" if t[1] == 1
                                          else f"uns({a}, {t[1]})"))
            elif op == "trunc":
                if t2[1] == 1:
                    out.append(f"{dst} = tr1(M, {a})")
                else:
                    out.append(f"{dst} = wrap({a}, {t2[1]})")
            elif op == "sitofp":
                out.append(f"{dst} = M.d.sitofp({a})")
            elif op == "uitofp":
                out.append(f"{dst} = M.d.sitofp(uns({a}, {t[1]}))")
            elif op in ("fptosi", "fptoui"):
                out.append(f"{dst} = M.d.fptosi({a})")
            elif op == "ptrtoint":
                out.append(f"{dst} = {a}")
            elif op == "inttoptr":
                out.append(f"{dst} = {a}")
            elif op in ("fpext",):
                out.append(f"{dst} = {a}")
            elif op == "fptrunc":
                out.append(f"{dst} = M.d.fptrunc({a})")
            elif op == "bitcast":
                if t[0] == t2[0]:
                    out.append(f"{dst} = {a}")
                else:
                    out.append(f"{dst} = M.d.bitcast({a}, {t2!r})")
            return
        if op == "extractvalue":
            t, a, i = self.arg(p, i)
            e = a
            while i < len(p) and p[i] == ",":
                if not p[i + 1].isdigit():
                    break
                e += f"[{p[i + 1]}]"
                i += 2
            out.append(f"{dst} = {e}")
            return
        if op == "insertvalue":
            t, a, i = self.arg(p, i)
            t2, b, i = self.arg(p, i + 1)
            out.append(f"{dst} = ins({a}, {b}, {p[i + 1]})")
            return
        raise IRError(f"instruction {op}: {' '.join(p[:14])}")

    def call(self, bi, op, p, i, dst, out):
        # skip cc / ret attrs / fast-math
        while True:
            t = p[i]
            if t in ("ptr", "void", "double", "float") or \
                    re.fullmatch(r"i\d+", t) or t[0] in "%{[":
                break
            i += 1
            if p[i] == "(":
                i = self._skip(p, i)
            elif t == "align":
                i += 1
        rt, i = self.T.parse(p, i)
        if p[i] == "(":          # function type of a vararg callee
            i = self._skip(p, i)
        callee = p[i]
        i += 1
        args = []
        i += 1
        while p[i] != ")":
            t, e, i = self.arg(p, i)
            args.append(e)
            if p[i] == ",":
                i += 1
        al = "[" + ", ".join(args) + "]"
        if callee[0] == "@":
            ex = f"M.call({callee!r}, {al})"
            if callee.startswith(("@llvm.lifetime", "@llvm.dbg",
                                  "@llvm.experimental.noalias", "@llvm.assume",
                                  "@llvm.invariant")):
                ex = "None"
        else:
            e, _ = self.val(("ptr",), [callee], 0)
            ex = f"M.call({e}[0], {al})"
        st = f"{dst} = {ex}" if dst else ex
        if op == "call":
            if ex != "None":
                out.append(st)
            return
        to = p[p.index("to", i) + 2]
        un = p[p.index("unwind", i) + 2]
        out.append("try:")
        out.append("    " + st)
        out.append("except CxxThrow as _e:")
        out.append("    M.pending = ((_e.ti, _e.obj), 1)")
        out.append("    " + self.goto(bi, un))
        out.append(self.goto(bi, to))


def compile_function(mach, f):
    return FnCompiler(mach, f).compile()


def padd(p, n):
    return (p[0], p[1] + n)


def alloca(M, sz, cnt, name):
    o = Obj(sz * cnt, f"stack:{name}")
    o.tag = "stack"
    return (o, 0)


def insv(agg, v, k):
    a = list(agg)
    a[k] = v
    return tuple(a)


def peq(a, b):
    return a[0] is b[0] and a[1] == b[1]


def ib(M, c):
    return c if type(c) is int else M.d.branch(c)


def bbop(M, op, a, b):
    if type(a) is int and type(b) is int:
        return (a & b if op == "and" else a | b if op == "or" else a ^ b) & 1
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        b &= 1
        if op == "and":
            return a if b else 0
        if op == "or":
            return 1 if b else a
        return M.d.bnot(a) if b else a
    return M.d.bbop(op, a, b)


def sx1(M, c):
    return (-1 if c else 0) if type(c) is int else M.d.ite(c, -1, 0)


def zx1(M, c):
    return c & 1 if type(c) is int else M.d.ite(c, 1, 0)


def tr1(M, c):
    return c & 1 if type(c) is int else M.d.icmp("ne", c, 0, 64)


def pcmp(M, pred, a, b):
    if type(a) is int or type(b) is int:
        return icmp(M, pred, a, b, 64)
    same = a[0] is b[0] or (type(a[0]) is str and a[0] == b[0])
    if pred == "eq":
        return icmp(M, "eq", a[1], b[1], 64) if same else 0
    if pred == "ne":
        return icmp(M, "ne", a[1], b[1], 64) if same else 1
    if not same:
        raise MemViolation("ordering comparison of unrelated pointers")
    return icmp(M, pred.replace("u", "s"), a[1], b[1], 64)


def isub(a, b, n):
    if type(a) is tuple or type(b) is tuple:
        if type(b) is not tuple:
            return (a[0], a[1] - b)
        if type(a) is not tuple or a[0] is not b[0]:
            raise MemViolation("difference of unrelated pointers")
        return a[1] - b[1]
    return wrap(a - b, n)


def iadd(a, b, n):
    if type(a) is tuple:
        return (a[0], a[1] + b)
    if type(b) is tuple:
        return (b[0], b[1] + a)
    return wrap(a + b, n)


PRED = {
    "eq": lambda a, b: a == b, "ne": lambda a, b: a != b,
    "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b,
    "sgt": lambda a, b: a > b, "sge": lambda a, b: a >= b,
}


def icmp(M, pred, a, b, n):
    if type(a) is tuple or type(b) is tuple:
        return pcmp(M, pred, a if type(a) is tuple else (None, a),
                    b if type(b) is tuple else (None, b))
    if type(a) is int and type(b) is int:
        if pred[0] == "u":
            m = (1 << n) - 1
            a &= m
            b &= m
            pred = "s" + pred[1:]
        return 1 if PRED[pred](a, b) else 0
    return M.d.icmp(pred, a, b, n)


def gepi(*a):
    raise IRError("gepi")


def idiv(M, op, a, b, n):
    if type(a) is tuple or type(b) is tuple:
        # (p - q) as integers came through sub; only shifts of offsets occur
        raise IRError("integer arithmetic on pointers")
    if type(a) is not int or type(b) is not int:
        return M.d.idiv(op, a, b, n)
    if op == "ashr":
        return a >> b
    if op == "lshr":
        return wrap((a & ((1 << n) - 1)) >> b, n)
    if op in ("udiv", "urem"):
        a &= (1 << n) - 1
        b &= (1 << n) - 1
        if b == 0:
            raise MemViolation("division by zero")
        return wrap(a // b if op == "udiv" else a % b, n)
    if b == 0:
        raise MemViolation("division by zero")
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0):
        q = -q
    if op == "sdiv":
        return wrap(q, n)
    return wrap(a - q * b, n)
