"""Exact symbolic scalars: Laurent polynomials over atoms plus logs of atoms.

A value is  V = R + sum_a q_a*log(a) + log(c)   where R is a Laurent
polynomial (rational coefficients, rational exponents) over *atoms*, the a's
are non-negative atoms, and c is a positive rational.  Atoms are

* base variables (symbolic inputs) with a sign class,
* let-atoms   D := polynomial   (a multi-term divisor or log argument),
* exp-atoms   E_m := exp(monomial m)   (one per monomial: exp is a
  homomorphism, so equal exponents give equal monomials),
* uninterpreted-function atoms f(V) (digamma, gammaln, ...) and lg(a)=log(a)
  used where a log meets a product.

log(P) with P >= 0 also stands for -inf when P is 0; every operation for
which that matters asks the engine whether P can be 0 on this path.
"""
import math

import numpy as np
import numbers
from fractions import Fraction

ENGINE = None          # set by engine.activate()


class Unsupported(Exception):
    """The encoding cannot represent what the code did."""


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "name", "kind", "sign", "defn", "num", "expanded",
                 "z3", "depth")

    def __repr__(self):
        return self.name


ATOMS = []
_VARS = {}
_LETS = {}
_EXPS = {}
_UFS = {}          # fname -> list of (arg V, atom)
_LGS = {}


def _mk(name, kind, sign, defn, depth=0):
    a = Atom()
    a.id = len(ATOMS)
    a.name = name
    a.kind = kind
    a.sign = sign
    a.defn = defn
    a.num = None
    a.expanded = None
    a.z3 = None
    a.depth = depth
    ATOMS.append(a)
    return a


def reset_atoms():
    del ATOMS[:]
    for t in (_VARS, _LETS, _EXPS, _UFS, _LGS):
        t.clear()
    global PI, EULER
    PI = _mk("pi", "const", "pos", math.pi)
    EULER = _mk("e", "const", "pos", math.e)


def var_atom(name, sign="real"):
    a = _VARS.get(name)
    if a is None:
        a = _VARS[name] = _mk(name, "var", sign, None)
    elif a.sign != sign:
        raise Unsupported(f"variable {name} redeclared with another sign")
    return a


reset_atoms()


# ---------------------------------------------------------------- numbers
def norm_num(c):
    if type(c) is int:
        return c
    if isinstance(c, Fraction):
        return c.numerator if c.denominator == 1 else c
    if isinstance(c, (bool,)):
        return int(c)
    if isinstance(c, numbers.Integral):
        return int(c)
    if isinstance(c, numbers.Real):
        f = float(c)
        fr = Fraction(f)
        return fr.numerator if fr.denominator == 1 else fr
    raise Unsupported(f"not a number: {c!r}")


def qdiv(a, b):
    return norm_num(Fraction(a) / Fraction(b))


def qpow(c, e):
    """c**e for rational c>0; exact when possible, else a double."""
    if e == 1:
        return c
    if c == 1:
        return 1
    if type(e) is int or e.denominator == 1:
        return norm_num(Fraction(c) ** int(e))
    f = Fraction(c)
    d = e.denominator

    def root(n):
        if n <= 0:
            return None
        r = round(n ** (1.0 / d)) if n < 10**300 else None
        if r is not None and r ** d == n:
            return r
        return None
    rn, rd = root(f.numerator), root(f.denominator)
    if rn is not None and rd is not None:
        return norm_num(Fraction(rn, rd) ** e.numerator)
    return norm_num(float(f) ** float(e))


# ---------------------------------------------------------------- monomials
# a monomial is a tuple of (atom_id, exponent), sorted by id, exponent != 0
def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a[0] == b[0]:
            e = a[1] + b[1]
            if e != 0:
                if type(e) is not int and e.denominator == 1:
                    e = int(e)
                out.append((a[0], e))
            i += 1
            j += 1
        elif a[0] < b[0]:
            out.append(a)
            i += 1
        else:
            out.append(b)
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)


def mono_pow(m, e):
    if e == 1:
        return m
    out = []
    for a, x in m:
        y = x * e
        if type(y) is not int and y.denominator == 1:
            y = int(y)
        if y != 0:
            out.append((a, y))
    return tuple(out)


def mono_inv(m):
    return tuple((a, -e) for a, e in m)


# ---------------------------------------------------------------- polys
# a poly is a dict monomial -> nonzero rational (int or Fraction)
ZERO = {}
ONE = {(): 1}


def p_const(c):
    c = norm_num(c)
    return {(): c} if c else {}


def p_add(p, q):
    if not p:
        return q
    if not q:
        return p
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m)
        if s is None:
            r[m] = c
        else:
            s = s + c
            if s == 0:
                del r[m]
            else:
                if type(s) is not int and s.denominator == 1:
                    s = s.numerator
                r[m] = s
    return r


def p_scale(p, c):
    if c == 1:
        return p
    if c == 0:
        return ZERO
    return {m: norm_num(k * c) for m, k in p.items()}


def p_neg(p):
    return {m: -k for m, k in p.items()}


def p_mul_mono(p, m, c=1):
    if c == 1 and not m:
        return p
    if c == 1:
        return {mono_mul(x, m): k for x, k in p.items()}
    return {mono_mul(x, m): norm_num(k * c) for x, k in p.items()}


MAXTERMS = 400000


def p_mul(p, q):
    if not p or not q:
        return ZERO
    if len(q) < len(p):
        p, q = q, p
    if len(p) == 1:
        (m, c), = p.items()
        return p_mul_mono(q, m, c)
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    if len(r) > MAXTERMS:
        raise Unsupported("polynomial too large")
    return {m: (c.numerator if type(c) is not int and c.denominator == 1 else c)
            for m, c in r.items() if c != 0}


def p_pow(p, n):
    r = ONE
    b = p
    while n:
        if n & 1:
            r = p_mul(r, b)
        n >>= 1
        if n:
            b = p_mul(b, b)
    return r


def p_content(p):
    """monomial content (min exponent of every atom over all terms)."""
    it = iter(p)
    first = dict(next(it))
    mins = first
    for m in it:
        d = dict(m)
        for a in list(mins):
            x = d.get(a, 0)
            if x < mins[a]:
                mins[a] = x
        for a, x in d.items():
            if a not in mins and x < 0:
                mins[a] = x
    return tuple(sorted((a, e) for a, e in mins.items() if e != 0))


def p_primitive(p):
    """p == c * mono * prim, prim monic with no negative exponents/content."""
    cont = p_content(p)
    if cont:
        inv = mono_inv(cont)
        p = {mono_mul(m, inv): c for m, c in p.items()}
    lead = max(p)
    c = p[lead]
    if c != 1:
        p = {m: qdiv(k, c) for m, k in p.items()}
    return c, cont, p


# ---------------------------------------------------------------- signs
def atom_sign(aid):
    """'pos' | 'nonneg' | 'zero' | 'real' on the current path."""
    s = ATOMS[aid].sign
    if ENGINE is not None:
        k = ENGINE.known_sign(aid)
        if k is not None:
            return k
    if s == "nonneg" and ATOMS[aid].kind == "let" and ENGINE is not None:
        # positive as soon as one term is positive on this path
        for m, c in ATOMS[aid].defn.items():
            if c > 0 and mono_sign(m) == "pos":
                ENGINE.note_pos(aid)
                return "pos"
    return s


def mono_sign(m):
    res = "pos"
    if ENGINE is not None and ENGINE.zero_monos:
        at = {a for a, e in m if e > 0}
        for z in ENGINE.zero_monos:
            if z <= at:
                return "zero"
    for a, e in m:
        s = atom_sign(a)
        if s == "zero":
            return "zero"
        if s == "real":
            if type(e) is int and e % 2 == 0:
                s = "pos" if e < 0 else "nonneg"
            elif e < 0:
                s = "real"
        elif s == "nonneg" and e < 0:
            s = "pos"          # division guard established it
        if s == "real":
            return "real" if res != "zero" else "zero"
        if s == "nonneg":
            res = "nonneg"
    return res


def poly_sign(p):
    """'zero','pos','neg','nonneg','nonpos','real'."""
    if not p:
        return "zero"
    anyp = anyn = False
    strict = False
    for m, c in p.items():
        s = mono_sign(m)
        if s == "zero":
            continue
        if s == "real":
            return "real"
        if c > 0:
            anyp = True
        else:
            anyn = True
        if s == "pos":
            strict = True
    if anyp and anyn:
        return "real"
    if not anyp and not anyn:
        return "zero"
    if anyp:
        return "pos" if strict else "nonneg"
    return "neg" if strict else "nonpos"


# ---------------------------------------------------------------- atomising
def let_atom(prim):
    """atom for a primitive polynomial (see p_primitive)."""
    key = frozenset(prim.items())
    a = _LETS.get(key)
    if a is None:
        s = _static_sign(prim)
        dep = 1 + max((ATOMS[x].depth for m in prim for x, _ in m), default=0)
        a = _LETS[key] = _mk(f"D{len(ATOMS)}", "let", s, prim, dep)
    return a


def _static_sign(p):
    ok = True
    strict = False
    for m, c in p.items():
        if c < 0:
            return "real"
        st = True
        for a, e in m:
            s = ATOMS[a].sign
            if s == "real":
                if not (type(e) is int and e % 2 == 0):
                    return "real"
                st = False
            elif s == "nonneg" and e > 0:
                st = False
        strict = strict or st
    return "pos" if strict else "nonneg"


def as_monomial(p):
    """(c, mono) with p == c*mono, atomising a multi-term polynomial."""
    if len(p) == 1:
        (m, c), = p.items()
        return c, m
    c, cont, prim = p_primitive(p)
    if len(prim) == 1:
        (m, k), = prim.items()
        return c * k, mono_mul(cont, m)
    if len(prim) == 0:
        raise ZeroDivisionError
    sq = perfect_square(prim)
    if sq is not None:
        b, e = sq
        c2, m2 = as_monomial(b)
        # (c2*m2)^e
        return norm_num(c * c2 ** e), mono_mul(cont, mono_pow(m2, e))
    a = let_atom(prim)
    return c, mono_mul(cont, ((a.id, 1),))


def perfect_square(p):
    return None


def exp_atom(m):
    a = _EXPS.get(m)
    if a is None:
        a = _EXPS[m] = _mk(f"exp[{mono_str(m)}]", "exp", "pos", m)
    return a


def mono_str(m):
    return "*".join(f"{ATOMS[a].name}" + (f"^{e}" if e != 1 else "")
                    for a, e in m) or "1"


def p_str(p, limit=12):
    items = list(p.items())[:limit]
    s = " + ".join((f"{float(c):.6g}*" if c != 1 else "") + mono_str(m)
                   for m, c in items) or "0"
    return s + (" + ..." if len(p) > limit else "")


def lg_atom(aid):
    a = _LGS.get(aid)
    if a is None:
        a = _LGS[aid] = _mk(f"log[{ATOMS[aid].name}]", "lg", "real", aid)
    return a


def uf_atom(fname, arg, sign="real"):
    """atom for f(arg); equal arguments share it."""
    lst = _UFS.setdefault(fname, [])
    for v, a in lst:
        if same(v, arg):
            return a
    a = _mk(f"{fname}[{arg}]"[:80], "uf", sign, (fname, arg))
    lst.append((arg, a))
    return a


# ---------------------------------------------------------------- expansion
def expand_atom(aid):
    """polynomial over non-let atoms equal to a let-atom."""
    a = ATOMS[aid]
    if a.kind != "let":
        return {((aid, 1),): 1}
    if a.expanded is None:
        a.expanded = expand_poly(a.defn)
    return a.expanded


def expand_poly(p):
    """substitute let-atoms with non-negative integer exponents."""
    if not any(ATOMS[a].kind == "let" and type(e) is int and e > 0
               for m in p for a, e in m):
        return p
    # group terms by their let part to save multiplications
    groups = {}
    for m, c in p.items():
        lets = tuple((a, e) for a, e in m
                     if ATOMS[a].kind == "let" and type(e) is int and e > 0)
        rest = tuple((a, e) for a, e in m
                     if not (ATOMS[a].kind == "let" and type(e) is int
                             and e > 0))
        g = groups.setdefault(lets, {})
        g[rest] = g.get(rest, 0) + c
    r = ZERO
    for lets, g in groups.items():
        t = g
        for a, e in lets:
            t = p_mul(t, p_pow(expand_atom(a), e))
        r = p_add(r, t)
    return {m: c for m, c in r.items() if c != 0}


def clear_den(ps):
    """multiply all polys by one positive-power monomial; -> polys, mono."""
    mins = {}
    for p in ps:
        for m in p:
            for a, e in m:
                if e < 0 and e < mins.get(a, 0):
                    mins[a] = e
    if not mins:
        return ps, ()
    mul = tuple(sorted((a, -e) for a, e in mins.items()))
    return [p_mul_mono(p, mul) for p in ps], mul


# ---------------------------------------------------------------- numerics
class NumCtx:
    """numeric evaluation at a point: base-variable name -> float."""

    def __init__(self, point):
        self.point = point
        self.memo = {}

    def atom(self, aid):
        v = self.memo.get(aid)
        if v is None:
            v = self.memo[aid] = self._atom(ATOMS[aid])
        return v

    def _atom(self, a):
        k = a.kind
        if k == "var":
            return float(self.point[a.name])
        if k == "const":
            return a.defn
        if k == "let":
            return self.poly(a.defn)
        if k == "exp":
            return math.exp(min(700., self.mono(a.defn)))
        if k == "lg":
            x = self.atom(a.defn)
            return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)
        if k == "uf":
            f, arg = a.defn
            return _uf_num(f, self.value(arg))
        raise Unsupported(k)

    def mono(self, m):
        r = 1.0
        for a, e in m:
            x = self.atom(a)
            try:
                r *= x ** (e if type(e) is int else float(e))
            except ZeroDivisionError:
                return math.nan
            except OverflowError:
                return math.inf
        return r

    def poly(self, p):
        vals = []
        for m, c in p.items():
            x = self.mono(m)
            try:
                vals.append(x * float(c))
            except OverflowError:
                return math.nan
        try:
            return math.fsum(vals)
        except (OverflowError, ValueError):
            return math.nan

    def value(self, v):
        if v.special is not None:
            return {"nan": math.nan, "inf": math.inf,
                    "-inf": -math.inf}[v.special]
        r = self.poly(v.R)
        if v.L or v.lc != 1:
            if v.lc != 1:
                r += _biglog(v.lc)
            for a, q in v.L.items():
                x = self.atom(a)
                r += float(q) * (math.log(x) if x > 0 else
                                 (-math.inf if x == 0 else math.nan))
        return r


def _biglog(c):
    f = Fraction(c)
    return math.log(f.numerator) - math.log(f.denominator)


def _uf_num(f, x):
    from scipy import special
    if f == "digamma":
        return float(special.digamma(x))
    if f == "gammaln":
        return float(special.gammaln(x))
    if f == "expm":
        return math.exp(x)
    if f.startswith("round"):
        return float(np.round(x, int(f[5:])))
    if f in ("floor", "ceil"):
        return float(getattr(math, f)(x))
    raise Unsupported(f)


import random as _random
_FPR = _random.Random(12345)
_FP_POINTS = []


class _DefaultPoint(dict):
    def __init__(self, seed):
        self.seed = seed

    def __missing__(self, name):
        r = _random.Random(f"{self.seed}:{name}")
        a = _VARS.get(name)
        v = r.uniform(0.3, 1.7)
        if a is not None and a.sign == "real" and r.random() < .5:
            v = -v
        self[name] = v
        return v


_fp_ctx = []


def fp_ctx():
    if not _fp_ctx:
        for s in (1, 2):
            _fp_ctx.append(NumCtx(_DefaultPoint(s)))
    return _fp_ctx


def same(u, v):
    """u and v denote the same function (numeric filter, then exact)."""
    if u.special is not None or v.special is not None:
        return u.special == v.special
    if u.R == v.R and u.L == v.L and u.lc == v.lc:
        return True
    for c in fp_ctx():
        a, b = c.value(u), c.value(v)
        if not (abs(a - b) <= 1e-7 * (1 + abs(a) + abs(b))):
            return False
    return identical(u, v)


def identical(u, v):
    """exact (up to coefficient rounding): u - v expands to zero."""
    dR = p_add(u.R, p_neg(v.R))
    L = dict(u.L)
    for a, q in v.L.items():
        s = L.get(a, 0) - q
        if s == 0:
            L.pop(a, None)
        else:
            L[a] = s
    lc = qdiv(u.lc, v.lc)
    cst = 0
    if not poly_is_zero(dR):
        # allow a constant difference to be compensated by the log part
        d2 = expand_diff(dR)
        if list(d2) == [()] :
            cst = float(d2[()])
        else:
            return False
    if not L:
        return abs(_biglog(lc) + cst) < 1e-11
    return logpart_is(L, lc, cst)


def logpart_is(L, lc, cst=0.0):
    """ sum L log a + log lc + cst == 0 identically? """
    N, D, cN = log_sides(L, lc, cst)
    a = expand_poly(N)
    b = expand_poly(D)
    return polys_close(p_scale(a, cN), b)


def log_sides(L, lc, cst=0.0):
    den = 1
    for q in L.values():
        if type(q) is not int:
            den = den * q.denominator // math.gcd(den, q.denominator)
    num = []
    dn = []
    for a, q in sorted(L.items()):
        e = q * den
        e = int(e)
        if e > 0:
            num.append((a, e))
        else:
            dn.append((a, -e))
    cN = qpow(lc, den)
    if cst:
        cN = norm_num(cN * norm_num(math.exp(cst * den)))
    return {tuple(num): 1}, {tuple(dn): 1}, cN


REL = 1e-10


def polys_close(p, q, rel=REL):
    """coefficientwise equal up to rounding of double constants."""
    if p == q:
        return True
    mx = 0.0
    for c in p.values():
        mx = max(mx, abs(float(c)))
    for c in q.values():
        mx = max(mx, abs(float(c)))
    for m in set(p) | set(q):
        a, b = p.get(m, 0), q.get(m, 0)
        if a == b:
            continue
        d = abs(float(a - b))
        if d > rel * max(abs(float(a)), abs(float(b))) and d > 1e-13 * mx:
            return False
    return True


def expand_diff(p):
    """expanded numerator of a Laurent polynomial (cleared, lets gone)."""
    if not p:
        return p
    (q,), mul = clear_den([p])
    e = expand_poly(q)
    return e


def poly_is_zero(p):
    if not p:
        return True
    pos = {m: c for m, c in p.items() if c > 0}
    neg = {m: -c for m, c in p.items() if c < 0}
    (a, b), _ = clear_den([pos, neg])
    return polys_close(expand_poly(a), expand_poly(b))


# ---------------------------------------------------------------- values
class V:
    __slots__ = ("R", "L", "lc", "special")
    __array_priority__ = 0
    ndim, shape, size = 0, (), 1        # numpy scalars have these

    def __init__(self, R=ZERO, L=None, lc=1, special=None):
        self.R = R
        self.L = L if L is not None else {}
        self.lc = lc
        self.special = special

    # -- construction
    @staticmethod
    def of(x):
        if isinstance(x, V):
            return x
        if isinstance(x, (bool,)):
            return V(p_const(int(x)))
        if getattr(x, "ndim", 0):
            return None
        if isinstance(x, numbers.Number) or hasattr(x, "dtype"):
            if hasattr(x, "item") and not isinstance(x, (int, float)):
                x = x.item()
                if isinstance(x, V):
                    return x
            if isinstance(x, complex):
                raise Unsupported("complex")
            if isinstance(x, float):
                if math.isnan(x):
                    return NAN
                if math.isinf(x):
                    return INF if x > 0 else NINF
            return V(p_const(x))
        return None

    @property
    def is_const(self):
        return (self.special is None and not self.L and self.lc == 1
                and (not self.R or (len(self.R) == 1 and () in self.R)))

    @property
    def const(self):
        return self.R.get((), 0)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def copy(self):
        return self

    def __repr__(self):
        if self.special:
            return self.special
        s = p_str(self.R) if self.R else ""
        if self.L or self.lc != 1:
            t = []
            if self.lc != 1:
                t.append(f"log({float(self.lc):.6g})")
            for a, q in self.L.items():
                t.append((f"{q}*" if q != 1 else "") + f"log({ATOMS[a].name})")
            s = (s + " + " if s else "") + " + ".join(t)
        return s or "0"

    def __format__(self, spec):
        if self.is_const:
            return format(float(self), spec) if spec else repr(self)
        return repr(self)

    # -- logs to atoms
    def delog(self):
        """same value with log parts as lg atoms in R."""
        if not self.L and self.lc == 1:
            return self
        r = self.R
        if self.lc != 1:
            r = p_add(r, _const_log(self.lc))
        if ENGINE.branch(is_ninf(self)):
            return NINF
        for a, q in self.L.items():
            r = p_add(r, {((lg_atom(a).id, 1),): q})
        return V(r)

    # -- arithmetic
    def __add__(self, o):
        o = V.of(o)
        if o is None:
            return NotImplemented
        if self.special or o.special:
            return _add_special(self, o)
        if not self.L and not o.L and self.lc == 1 and o.lc == 1:
            return V(p_add(self.R, o.R))
        L = dict(self.L)
        for a, q in o.L.items():
            s = L.get(a, 0) + q
            if s == 0:
                del L[a]
            else:
                if type(s) is not int and s.denominator == 1:
                    s = int(s)
                L[a] = s
        return V(p_add(self.R, o.R), L, norm_num(self.lc * o.lc))

    __radd__ = __add__

    def __neg__(self):
        if self.special:
            return {"nan": NAN, "inf": NINF, "-inf": INF}[self.special]
        if self.L and ENGINE.branch(is_ninf(self)):
            return INF
        return V(p_neg(self.R), {a: -q for a, q in self.L.items()},
                 qdiv(1, self.lc) if self.lc != 1 else 1)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = V.of(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = V.of(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = V.of(o)
        if o is None:
            return NotImplemented
        if self.special or o.special:
            return _mul_special(self, o)
        sl, ol = bool(self.L) or self.lc != 1, bool(o.L) or o.lc != 1
        if not sl and not ol:
            return V(p_mul(self.R, o.R))
        if sl and o.is_const:
            return self._scale(o.const)
        if ol and self.is_const:
            return o._scale(self.const)
        return self.delog() * o.delog()

    __rmul__ = __mul__

    def _scale(self, c):
        if c == 0:
            return NAN if ENGINE.branch(is_ninf(self)) else V0
        if c < 0:
            return (-self)._scale(-c) if c != -1 else -self
        if type(c) is int or Fraction(c).denominator <= 64:
            try:
                lc = qpow(self.lc, c)
                return V(p_scale(self.R, c),
                         {a: norm_num(q * c) for a, q in self.L.items()}, lc)
            except OverflowError:
                pass
        return V(p_scale(p_add(self.R, _const_log(self.lc)), c),
                 {a: norm_num(q * c) for a, q in self.L.items()}, 1)

    def inverse(self):
        if self.special:
            return NAN if self.special == "nan" else V0
        d = self.delog()
        if d.special:
            return d.inverse()
        if not d.R:
            raise ZeroDivisionError
        c, m = as_monomial(d.R)
        return V({mono_inv(m): qdiv(1, c)})

    def __truediv__(self, o):
        o = V.of(o)
        if o is None:
            return NotImplemented
        if o.special:
            if self.special or o.special == "nan":
                return NAN
            return V0
        if o.is_const and o.const != 0:
            return self * V(p_const(qdiv(1, o.const)))
        if ENGINE.is_zero(o):
            if self.special == "nan" or ENGINE.is_zero(self):
                return NAN
            return INF if ENGINE.branch(cmp_lt(V0, self)) else NINF
        return self * o.inverse()

    def __rtruediv__(self, o):
        o = V.of(o)
        if o is None:
            return NotImplemented
        return o / self

    def __floordiv__(self, o):
        """exact only: the quotient is an integer for every integer value of
        the variables (which the harness declares to be integers)."""
        o = V.of(o)
        if o is not None and o.is_const and type(o.const) is int and \
                self.is_const and type(self.const) is int:
            return V.of(self.const // o.const)
        if o is not None and o.is_const and type(o.const) is int and \
                0 < o.const <= 4 and not self.special and \
                _always_multiple(self, o.const):
            return self / o
        raise Unsupported("floor division")

    def __rfloordiv__(self, o):
        raise Unsupported("floor division")

    __mod__ = __rmod__ = __rfloordiv__

    def __pow__(self, e):
        e = V.of(e)
        if e is None:
            return NotImplemented
        if not e.is_const:
            # x**y = exp(y*log x)
            return (e * self.log()).exp()
        k = e.const
        if type(k) is int:
            if k == 0:
                return V1
            if k < 0:
                return V1 / (self ** (-k))
            if self.special:
                r = self
                for _ in range(k - 1):
                    r = r * self
                return r
            return V(p_pow(self.delog().R, k))
        if k < 0:
            return V1 / (self ** norm_num(-k))
        if Fraction(k).denominator > 64:
            return (e * self.log()).exp()
        c, m = as_monomial(self.delog().R) if self.R or self.L else (0, ())
        if c == 0:
            return V0
        self._need_nonneg(c, m)
        return V({mono_pow(m, k): qpow(c, k)})

    def __rpow__(self, o):
        return V.of(o) ** self

    def _need_nonneg(self, c, m):
        s = mono_sign(m)
        if c < 0 or s == "real":
            if ENGINE.branch(cmp_lt(self, V0)):
                raise NanResult()
            if s == "real":
                raise Unsupported(f"root of a value of unknown sign: {self}")

    # -- functions numpy calls on object arrays
    def sqrt(self):
        if self.special:
            return NAN if self.special != "inf" else INF
        d = self.delog()
        if not d.R:
            return V0
        c, m = as_monomial(d.R)
        if any(type(e) is int and e % 2 == 0 and atom_sign(a) == "real"
               for a, e in m):
            raise Unsupported("root of an even power of a signed atom")
        if c < 0 or mono_sign(m) == "real":
            if ENGINE.branch(cmp_lt(self, V0)):
                return NAN
            if c < 0:
                c, m = _flip(c, m)
        return V({mono_pow(m, Fraction(1, 2)): qpow(c, Fraction(1, 2))})

    def log(self):
        if self.special:
            return {"nan": NAN, "inf": INF, "-inf": NAN}[self.special]
        d = self.delog()
        if d.special:
            return d.log()
        if not d.R:
            return NINF
        if d.is_const:
            c = d.const
            return NAN if c < 0 else V(lc=c)
        s = poly_sign(d.R)
        if s == "zero":
            return NINF
        if s in ("neg",):
            return NAN
        if s in ("real", "nonpos"):
            if ENGINE.branch(cmp_lt(d, V0)):
                return NAN
            if ENGINE.is_zero(d):
                return NINF
        c, m = as_monomial(d.R)
        if c < 0:
            c, m = _flip(c, m)
        L = {}
        cst = ZERO
        for a, e in m:
            A = ATOMS[a]
            if A.kind == "exp":
                cst = p_add(cst, {A.defn: e})
            elif a == EULER.id:
                cst = p_add(cst, {(): e})
            else:
                L[a] = e
        return V(cst, L, c)

    def log1p(self):
        return (self + V1).log()

    def exp(self):
        if self.special:
            return {"nan": NAN, "inf": INF, "-inf": V0}[self.special]
        m = tuple(sorted(self.L.items()))
        c = self.lc
        for mm, q in self.R.items():
            if mm == ():
                t = ((EULER.id, q),)
            elif len(mm) == 1 and mm[0][1] == 1 and \
                    ATOMS[mm[0][0]].kind == "lg":
                t = ((ATOMS[mm[0][0]].defn, q),)
            else:
                t = ((exp_atom(mm).id, q),)
            m = mono_mul(m, t)
        return V({m: c})

    def expm1(self):
        return self.exp() - V1

    def square(self):
        return self * self

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return V0

    def __abs__(self):
        if self.special:
            return NAN if self.special == "nan" else INF
        if not self.L and self.lc == 1:
            s = poly_sign(self.R)
            if s in ("pos", "nonneg", "zero"):
                return self
            if s in ("neg", "nonpos"):
                return -self
        if ENGINE.branch(cmp_lt(self, V0)):
            return -self
        return self

    fabs = absolute = __abs__

    def item(self):
        return self

    # -- comparisons
    def __lt__(self, o):
        return _cmp("lt", self, o)

    def __le__(self, o):
        return _cmp("le", self, o)

    def __gt__(self, o):
        return _cmp("lt", o, self)

    def __ge__(self, o):
        return _cmp("le", o, self)

    def __eq__(self, o):
        return _cmp("eq", self, o)

    def __ne__(self, o):
        r = _cmp("eq", self, o)
        return NotImplemented if r is NotImplemented else cond_not(r)

    __hash__ = None

    def __bool__(self):
        return not ENGINE.is_zero(self)

    def __float__(self):
        if self.special:
            return {"nan": math.nan, "inf": math.inf,
                    "-inf": -math.inf}[self.special]
        if self.is_const:
            return float(self.const)
        if not self.L and not self.R:
            return _biglog(self.lc)
        raise Unsupported(f"float() of a symbolic value {self}")

    def __int__(self):
        if self.is_const:
            return int(self.const)
        raise Unsupported(f"int() of a symbolic value {self}")

    def __index__(self):
        if self.is_const and type(self.const) is int:
            return self.const
        raise TypeError("symbolic value used as an index")

    def __round__(self, n=None):
        if self.is_const:
            return round(float(self), n) if n is not None else round(float(self))
        raise Unsupported("round() of a symbolic value")

    def is_integer(self):
        return self.is_const and type(self.const) is int


numbers.Real.register(V)


def _always_multiple(v, k):
    """is v a multiple of k for every integer value of its variables?
    (variables named #... are integers)"""
    import itertools
    if v.L or v.lc != 1:
        return False
    ids = set()
    for m, c in v.R.items():
        if type(c) is not int:
            return False
        for a, e in m:
            if ATOMS[a].kind != "var" or not ATOMS[a].name.startswith("#") \
                    or type(e) is not int or e < 0:
                return False
            ids.add(a)
    ids = sorted(ids)
    for t in itertools.product(range(k), repeat=len(ids)):
        d = dict(zip(ids, t))
        s = 0
        for m, c in v.R.items():
            x = c
            for a, e in m:
                x *= d[a] ** e
            s += x
        if s % k:
            return False
    return True


class NanResult(Exception):
    pass


def _flip(c, m):
    """move the sign of c into an odd signed let-atom of m."""
    for i, (a, e) in enumerate(m):
        A = ATOMS[a]
        if A.kind == "let" and atom_sign(a) == "real" and type(e) is int \
                and e % 2:
            neg = let_neg(A)
            mm = mono_mul(tuple(x for x in m if x[0] != a), ((neg.id, e),))
            return -c, mm
    raise Unsupported("sign of a product")


def let_neg(A):
    p = p_neg(A.defn)
    key = ("neg", frozenset(p.items()))
    a = _LETS.get(key)
    if a is None:
        a = _LETS[key] = _mk(f"D{len(ATOMS)}n", "let", "real", p, A.depth)
    return a


def _const_log(c):
    if c == 1:
        return ZERO
    return p_const(_biglog(c))


def _add_special(a, b):
    sa, sb = a.special, b.special
    if sa == "nan" or sb == "nan":
        return NAN
    if sa and sb:
        return a if sa == sb else NAN
    s, v = (a, b) if sa else (b, a)
    if s.special == "inf":
        # inf + log(0) = nan
        if ENGINE.branch(is_ninf(v)):
            return NAN
    return s


def _mul_special(a, b):
    if a.special == "nan" or b.special == "nan":
        return NAN
    s, v = (a, b) if a.special else (b, a)
    if v.special:
        return INF if s.special == v.special else NINF
    if ENGINE.is_zero(v):
        return NAN
    neg = ENGINE.branch(cmp_lt(v, V0))
    return (NINF if s.special == "inf" else INF) if neg else s


V0 = V()
V1 = V(ONE)
NAN = V(special="nan")
INF = V(special="inf")
NINF = V(special="-inf")


def var(name, sign="real"):
    return V({((var_atom(name, sign).id, 1),): 1})


def uf(fname, arg, sign="real"):
    return V({((uf_atom(fname, arg, sign).id, 1),): 1})


def vpi():
    return V({((PI.id, 1),): 1})


# ---------------------------------------------------------------- conditions
class Cond:
    """a boolean over values: ('lt'|'le'|'eq', a, b), and/or/not/true/false.

    atomic conditions are stored normalised as polynomials:
    P op 0 with P a polynomial without negative exponents (sides kept as
    pos, neg for the log-linear encoding when both are single monomials).
    """
    __slots__ = ("op", "args", "key")

    def __init__(self, op, *args):
        self.op = op
        self.args = args
        self.key = None

    def __bool__(self):
        return ENGINE.branch(self)

    def __and__(self, o):
        return cond_and(self, o)

    def __or__(self, o):
        return cond_or(self, o)

    __rand__ = __and__
    __ror__ = __or__

    def __invert__(self):
        return cond_not(self)

    def __repr__(self):
        if self.op in ("lt", "le", "eq"):
            o = {"lt": "<", "le": "<=", "eq": "=="}[self.op]
            return f"{p_str(self.args[0], 6)} {o} {p_str(self.args[1], 6)}"
        return f"{self.op}({', '.join(map(repr, self.args))})"

    def get_key(self):
        if self.key is None:
            if self.op in ("lt", "le", "eq"):
                self.key = (self.op,) + tuple(
                    frozenset(x.items()) for x in self.args)
            else:
                self.key = (self.op,) + tuple(
                    x.get_key() for x in self.args)
        return self.key


TRUE = Cond("true")
FALSE = Cond("false")


def to_cond(x):
    if isinstance(x, Cond):
        return x
    return TRUE if x else FALSE


def cond_not(c):
    c = to_cond(c)
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "lt":
        return Cond("le", c.args[1], c.args[0])
    if c.op == "le":
        return Cond("lt", c.args[1], c.args[0])
    return Cond("not", c)


def cond_and(*cs):
    out = []
    for c in cs:
        c = to_cond(c)
        if c is FALSE:
            return FALSE
        if c is not TRUE:
            out.append(c)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else Cond("and", *out)


def cond_or(*cs):
    out = []
    for c in cs:
        c = to_cond(c)
        if c is TRUE:
            return TRUE
        if c is not FALSE:
            out.append(c)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else Cond("or", *out)


def _cmp(op, a, b):
    a = V.of(a)
    b = V.of(b)
    if a is None or b is None:
        return NotImplemented
    return mk_cmp(op, a, b)


def cmp_lt(a, b):
    return mk_cmp("lt", V.of(a), V.of(b))


def cmp_le(a, b):
    return mk_cmp("le", V.of(a), V.of(b))


def cmp_eq(a, b):
    return mk_cmp("eq", V.of(a), V.of(b))


def _bool(x):
    return TRUE if x else FALSE


def is_ninf(v):
    """condition: v == -inf."""
    if v.special:
        return _bool(v.special == "-inf")
    m = tuple(sorted((a, 1) for a, q in v.L.items()
                     if q > 0 and atom_sign(a) != "pos"))
    return atomic("eq", {m: 1}, ZERO) if m else FALSE


COMPARE = {}
WATCH = None


def watched(name, x, r):
    """tells who watches exponentials and logarithms of the code (C23)."""
    global WATCH
    if WATCH is not None:
        f, WATCH = WATCH, None
        try:
            f(name, x, r)
        finally:
            WATCH = f
    return r


def mk_cmp(op, a, b):
    if a.__class__ is not V or b.__class__ is not V:
        f = COMPARE.get(a.__class__) or COMPARE.get(b.__class__)
        c = f(op, a, b) if f else None
        if c is not None:
            return c
    if a.special or b.special:
        if a.special == "nan" or b.special == "nan":
            return FALSE
        if a.special and b.special:
            x = float("inf") if a.special == "inf" else float("-inf")
            y = float("inf") if b.special == "inf" else float("-inf")
            return _bool({"lt": x < y, "le": x <= y, "eq": x == y}[op])
        if b.special == "inf":
            return _bool(op != "eq")
        if a.special == "inf":
            return FALSE
        if a.special == "-inf":
            z = is_ninf(b)
            return {"lt": cond_not(z), "le": TRUE, "eq": z}[op]
        # b is -inf
        z = is_ninf(a)
        return {"lt": FALSE, "le": z, "eq": z}[op]
    la = a.L or a.lc != 1
    lb = b.L or b.lc != 1
    if not la and not lb:
        d = p_add(a.R, p_neg(b.R))
        return atomic_poly(op, d)
    dR = p_add(a.R, p_neg(b.R))
    cst = 0
    if dR and (list(dR) == [()]):
        cst = dR[()]
        dR = ZERO
    if not dR:
        # compare monomials; maybe-zero atoms are not cancelled
        num, dn = {}, {}
        dens = [q.denominator for q in list(a.L.values()) + list(b.L.values())
                if type(q) is not int]
        den = 1
        for d in dens:
            den = den * d // math.gcd(den, d)

        def put(t, aid, e):
            t[aid] = t.get(aid, 0) + e
        for src, s in ((a, 1), (b, -1)):
            for aid, q in src.L.items():
                e = int(q * den)
                if (e > 0) == (s > 0):
                    put(num, aid, abs(e))
                else:
                    put(dn, aid, abs(e))
        for aid in list(num):
            if aid in dn and atom_sign(aid) == "pos":
                k = min(num[aid], dn[aid])
                num[aid] -= k
                dn[aid] -= k
        c = qpow(qdiv(a.lc, b.lc), den)
        if cst:
            c = norm_num(c * norm_num(math.exp(float(cst) * den)))
        N = {tuple(sorted((x, e) for x, e in num.items() if e)): c}
        D = {tuple(sorted((x, e) for x, e in dn.items() if e)): 1}
        return atomic(op, N, D)
    x, y = a.delog(), b.delog()
    if x.special or y.special:
        return mk_cmp(op, x, y)
    return atomic_poly(op, p_add(x.R, p_neg(y.R)))


def atomic_poly(op, d):
    """d op 0 for a Laurent polynomial d."""
    if not d:
        return _bool(op != "lt")
    if len(d) == 1 and () in d:
        c = d[()]
        return _bool({"lt": c < 0, "le": c <= 0, "eq": c == 0}[op])
    # clear denominators with a positive multiplier
    mins = {}
    for m in d:
        for a, e in m:
            if e < 0 and e < mins.get(a, 0):
                mins[a] = e
    if mins:
        mul = []
        for a, e in sorted(mins.items()):
            k = -e
            if atom_sign(a) == "real":
                if type(k) is not int:
                    raise Unsupported("fractional power of signed atom")
                if k % 2:
                    k += 1
            mul.append((a, k))
        d = p_mul_mono(d, tuple(mul))
    P = {m: c for m, c in d.items() if c > 0}
    N = {m: -c for m, c in d.items() if c < 0}
    return atomic(op, P, N)


def atomic(op, P, N):
    """P op N, both with positive coefficients and exponents."""
    P = {m: c for m, c in P.items() if mono_sign(m) != "zero"}
    N = {m: c for m, c in N.items() if mono_sign(m) != "zero"}
    if P == N:
        return _bool(op != "lt")
    # drop a common positive monomial factor
    if P and N:
        both = dict(P)
        both.update(N)
        cont = [(a, e) for a, e in p_content(both) if atom_sign(a) == "pos"]
        if cont:
            inv = mono_inv(tuple(cont))
            P = p_mul_mono(P, inv)
            N = p_mul_mono(N, inv)
    d = p_add(P, p_neg(N))
    s = poly_sign(d)
    if s == "pos":
        return FALSE
    if s == "neg":
        return _bool(op != "eq")
    if s == "zero":
        return _bool(op != "lt")
    if s == "nonneg" and op == "lt":
        return FALSE
    if s == "nonpos" and op == "le":
        return TRUE
    if s == "nonneg" and op == "le":
        op = "eq"
    if op == "eq" and not N and len(P) == 1:
        (m, c), = P.items()
        # monomial == 0
        cs = [((a, 1),) for a, e in m if atom_sign(a) != "pos"]
        if len(cs) == 1:
            return Cond("eq", {cs[0]: 1}, ZERO)
        P = {tuple((a, 1) for ((a, _),) in cs): 1}
    elif op == "eq" and not P and len(N) == 1:
        return atomic("eq", N, P)
    elif op in ("lt",) and not P and len(N) == 1:
        # 0 < monomial of nonneg atoms
        (m, c), = N.items()
        if all(atom_sign(a) in ("pos", "nonneg") for a, _ in m):
            N = {tuple((a, 1) for a, _ in m if atom_sign(a) != "pos"): 1}
    return Cond(op, P, N)
