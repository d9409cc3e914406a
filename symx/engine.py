"""Path exploration by re-execution, path conditions, and the SMT back end."""
from fractions import Fraction
import math
import os
import random
import sys
import time

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
import z3  # noqa: E402

from . import poly as P  # noqa: E402
from .poly import (ATOMS, V, Cond, TRUE, FALSE, cond_and, cond_not, cond_or,
                   cmp_eq, cmp_lt, cmp_le, Unsupported)  # noqa: E402


class Infeasible(Exception):
    """the current path's condition turned out unsatisfiable."""


class Budget(Exception):
    """path or time budget of the exploration exceeded."""


class Inconclusive(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.branches = 0
        self.forks = 0
        self.paths = 0
        self.obligations = 0
        self.discharged = 0
        self.instr = 0
        self.merges = 0
        self.numeric_feasible = 0
        self.by_tier = {}

    def as_dict(self):
        return dict(self.__dict__)

    def add(self, d):
        for k, v in d.items():
            if k == "by_tier":
                for t, n in v.items():
                    self.by_tier[t] = self.by_tier.get(t, 0) + n
            else:
                setattr(self, k, getattr(self, k, 0) + v)


class Point(dict):
    """numeric sample point, drawn lazily; simplex groups drawn jointly."""

    def __init__(self, eng, seed, style):
        super().__init__()
        self.eng = eng
        self.seed = seed
        self.style = style

    def full(self):
        """a plain dict with every declared variable."""
        for n in list(self.eng.vars):
            self[n]
        return dict(self)

    def __missing__(self, name):
        meta = self.eng.vars.get(name)
        r = random.Random(f"{self.seed}:{name if meta is None else meta.group or name}")
        if meta is None:
            v = r.uniform(.3, 1.7)
            self[name] = v
            return v
        if meta.group:
            names = self.eng.groups[meta.group]
            w = []
            for n in names:
                m = self.eng.vars[n]
                x = r.uniform(.08, 1.)
                if m.sign == "nonneg" and self.style == "zeros" \
                        and r.random() < .4:
                    x = 0.
                w.append(x)
            if not any(w):
                w[r.randrange(len(w))] = 1.
            s = sum(w)
            for n, x in zip(names, w):
                dict.setdefault(self, n, x / s)
            return self[name]
        if meta.sampler is not None:
            v = meta.sampler(r, self.style)
        elif meta.sign == "pos":
            v = r.uniform(.2, 2.)
        elif meta.sign == "nonneg":
            v = 0. if (self.style == "zeros" and r.random() < .4) \
                else r.uniform(.05, 2.)
        else:
            v = r.uniform(-2, 2)
        self[name] = v
        return v


class VarMeta:
    __slots__ = ("name", "sign", "group", "sampler")


class Snapshot:
    pass


class Engine:
    def __init__(self, seed=1, nsamples=16, nra_ms=3000, branch_nra_ms=400):
        self.stats = Stats()
        self.seed = seed
        self.nsamples = nsamples
        self.nra_ms = nra_ms
        self.branch_nra_ms = branch_nra_ms
        self.vars = {}
        self.groups = {}
        self.deadline = None
        self.qcache = {}
        self.incomplete = []
        self._reset_path()

    def activate(self):
        P.ENGINE = self

    # ------------------------------------------------------------ variables
    def declare(self, name, sign="real", group=None, sampler=None):
        m = self.vars.get(name)
        if m is None:
            m = VarMeta()
            m.name, m.sign, m.group, m.sampler = name, sign, group, sampler
            self.vars[name] = m
        return P.var(name, sign)

    # ------------------------------------------------------------ path state
    def _reset_path(self):
        self.pc = []
        self.pckeys = set()
        self.signs = {}
        self.zero_monos = ()
        self.prefix = []
        self.taken = []
        self.alts = []
        self.points = None

    def sample_points(self):
        if self.points is None:
            self.points = []
            for i in range(self.nsamples):
                pt = Point(self, f"{self.seed}/{i}",
                           "zeros" if i % 2 else "plain")
                ctx = P.NumCtx(pt)
                if all(self.holds(c, ctx) for c in self.pc):
                    self.points.append(ctx)
        return self.points

    def known_sign(self, aid):
        return self.signs.get(aid)

    def note_pos(self, aid):
        self.signs[aid] = "pos"

    def snapshot(self):
        s = Snapshot()
        s.pc = list(self.pc)
        s.pckeys = set(self.pckeys)
        s.signs = dict(self.signs)
        s.zero_monos = self.zero_monos
        s.points = list(self.sample_points())
        s.prefix, s.taken, s.alts = self.prefix, self.taken, self.alts
        return s

    def restore(self, s):
        self.pc = list(s.pc)
        self.pckeys = set(s.pckeys)
        self.signs = dict(s.signs)
        self.zero_monos = s.zero_monos
        self.points = list(s.points)
        self.prefix, self.taken, self.alts = s.prefix, s.taken, s.alts

    # ------------------------------------------------------------ exploring
    def explore(self, thunk, max_paths=100000):
        """run thunk on every feasible path; yields (pc delta, result)."""
        base = self.snapshot()
        nbase = len(base.pc)
        todo = [[]]
        out = []
        while todo:
            if self.deadline and time.time() > self.deadline:
                raise Budget("time")
            if len(out) >= max_paths:
                raise Budget("paths")
            self.restore(base)
            self.prefix = todo.pop()
            self.taken = []
            self.alts = []
            try:
                try:
                    r = thunk()
                except Infeasible:
                    continue
                out.append((self.pc[nbase:], r))
            finally:
                todo.extend(self.alts)
        self.restore(base)
        return out

    def _decide(self, options):
        """options: list of feasible option ids; returns the one taken."""
        n = len(self.taken)
        if n < len(self.prefix):
            k = self.prefix[n]
        else:
            k = options[0]
            for o in options[1:]:
                self.alts.append(self.taken + [o])
            if len(options) > 1:
                self.stats.forks += len(options) - 1
        self.taken.append(k)
        return k

    def choose(self, n):
        """nondeterministic choice 0..n-1."""
        if n == 1:
            return 0
        return self._decide(list(range(n)))

    def branch(self, c):
        c = P.to_cond(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        self.stats.branches += 1
        k = c.get_key()
        if k in self.pckeys:
            return True
        nc = cond_not(c)
        nk = nc.get_key()
        if nk in self.pckeys:
            return False
        known = self._known(c)
        if known is not None:
            return known
        n = len(self.taken)
        if n < len(self.prefix):
            v = self.prefix[n]
            self.taken.append(v)
            v = bool(v)
        else:
            ft = self.feasible(c)
            ff = self.feasible(nc) if ft else True
            if ft and ff:
                v = bool(self._decide([1, 0]))
            else:
                v = ft
                if not ft and not any(self.holds(nc, p)
                                      for p in self.sample_points()) \
                        and self.check([nc], nra_ms=0)[0] == "unsat":
                    raise Infeasible()
                self.taken.append(1 if v else 0)
        self.add(c if v else nc)
        return v

    def _known(self, c):
        """what the conditions already on the path say about c."""
        if c.op == "not":
            k = self._known(c.args[0])
            return None if k is None else not k
        if c.op in ("and", "or"):
            ks = [self._known(x) for x in c.args]
            if c.op == "and":
                return False if False in ks else \
                    None if None in ks else True
            return True if True in ks else None if None in ks else False
        if c.get_key() in self.pckeys:
            return True
        if cond_not(c).get_key() in self.pckeys:
            return False
        return None

    def assume(self, c):
        c = P.to_cond(c)
        if c is TRUE:
            return
        if c is FALSE:
            raise Infeasible()
        if c.get_key() in self.pckeys:
            return
        if not self.feasible(c):
            raise Infeasible()
        self.add(c)

    def branch_zero(self, aid):
        s = P.atom_sign(aid)
        if s == "zero":
            return True
        if s == "pos":
            return False
        return self.branch(P.atomic("eq", {((aid, 1),): 1}, P.ZERO))

    def is_zero(self, v):
        v = V.of(v)
        if v.special:
            return False
        return self.branch(cmp_eq(v, P.V0))

    def choose_cond(self, conds):
        """fork over conditions known to cover the path (merge groups)."""
        k = self._decide(list(range(len(conds))))
        self.add(conds[k])
        return k

    def add(self, c):
        if c.op == "and":
            for x in c.args:
                self.add(x)
            return
        if c is TRUE:
            return
        k = c.get_key()
        if k in self.pckeys:
            return
        self.pc.append(c)
        self.pckeys.add(k)
        self._derive(c)
        if self.points is not None:
            self.points = [p for p in self.points if self.holds(c, p)]

    def _derive(self, c):
        if c.op == "not" and c.args[0].op == "eq":
            e = c.args[0]
            if not e.args[1] and P.poly_sign(e.args[0]) == "nonneg":
                self._derive(Cond("lt", P.ZERO, e.args[0]))
            return
        if c.op == "eq":
            p, n = c.args
            if not n and len(p) == 1:
                (m, _), = p.items()
                if len(m) == 1:
                    self.signs[m[0][0]] = "zero"
                else:
                    self.zero_monos += (frozenset(
                        a for a, x in m if P.atom_sign(a) != "pos"),)
                self._rederive()
            elif not n and P.poly_sign(p) == "nonneg":
                # sum of nonneg terms is zero: single-atom terms vanish
                for m in p:
                    live = [a for a, _ in m if P.atom_sign(a) != "pos"]
                    if len(live) == 1:
                        self.signs[live[0]] = "zero"
                    else:
                        self.zero_monos += (frozenset(live),)
                self._note_let(p, "zero")
            return
        if c.op in ("lt", "le"):
            p, n = c.args
            sp = P.poly_sign(p)
            if (sp in ("pos",) or (c.op == "lt" and sp in ("zero", "nonneg"))):
                # n > 0
                if len(n) == 1:
                    (m, _), = n.items()
                    if all(P.atom_sign(a) in ("pos", "nonneg") for a, _ in m):
                        for a, _ in m:
                            self.signs[a] = "pos"
                    else:
                        live = [(a, e) for a, e in m
                                if P.atom_sign(a) == "real"]
                        if len(live) == 1 and type(live[0][1]) is int \
                                and live[0][1] % 2:
                            for a, _ in m:
                                self.signs[a] = "pos"
                elif n:
                    self._note_let(n, "pos")
            if c.op == "lt" and p and n:
                # p < n: the let-atom for n - p is positive
                self._note_let(P.p_add(n, P.p_neg(p)), "pos")
            if c.op == "le" and not n and P.poly_sign(p) == "nonneg":
                self._derive(Cond("eq", p, P.ZERO))

    def _rederive(self):
        """p <= n with n now zero: p is zero too."""
        for c in list(self.pc):
            if c.op == "le" and c.args[0] and c.args[1] \
                    and P.poly_sign(c.args[1]) == "zero" \
                    and P.poly_sign(c.args[0]) == "nonneg":
                z = P.atomic("eq", c.args[0], P.ZERO)
                k = z.get_key()
                if z is not TRUE and k not in self.pckeys:
                    self.pckeys.add(k)
                    self._derive(z)

    def _note_let(self, p, sign):
        if not p or len(p) == 1:
            return
        try:
            c, cont, prim = P.p_primitive(p)
        except Exception:
            return
        if len(prim) == 1:
            return
        cs = P.mono_sign(cont)
        if cs != "pos" and sign == "pos" and not all(
                P.atom_sign(a) in ("pos", "nonneg") for a, _ in cont):
            return
        a = P.let_atom(prim)
        if sign == "pos":
            if c > 0:
                self.signs[a.id] = "pos"
                for x, _ in cont:
                    if P.atom_sign(x) == "nonneg":
                        self.signs[x] = "pos"
            else:
                self.signs[P.let_neg(a).id] = "pos"
        elif sign == "zero" and cs == "pos":
            self.signs[a.id] = "zero"

    # ------------------------------------------------------------ numerics
    def holds(self, c, ctx, margin=1e-9):
        """numeric truth of c at a point (robustly)."""
        op = c.op
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "and":
            return all(self.holds(x, ctx, margin) for x in c.args)
        if op == "or":
            return any(self.holds(x, ctx, margin) for x in c.args)
        if op == "not":
            x = c.args[0]
            if x.op == "eq":
                a, b = ctx.poly(x.args[0]), ctx.poly(x.args[1])
                if a != a or b != b:
                    return False
                return abs(a - b) > margin * (abs(a) + abs(b)) and \
                    not (a == b)
            if x.op == "and":
                return any(self.holds(cond_not(y), ctx, margin) for y in x.args)
            if x.op == "or":
                return all(self.holds(cond_not(y), ctx, margin) for y in x.args)
            return False
        a, b = ctx.poly(c.args[0]), ctx.poly(c.args[1])
        if a != a or b != b:
            return False
        if op == "eq":
            return a == b or abs(a - b) <= margin * (abs(a) + abs(b))
        if op == "lt":
            return a < b and b - a > margin * (abs(a) + abs(b))
        return a == b or (a < b and b - a > margin * (abs(a) + abs(b)))

    def more_points(self, cond, n=60, want=1):
        """fresh sample points satisfying pc and cond."""
        out = []
        for i in range(n):
            pt = Point(self, f"{self.seed}/x{i}/{len(self.pc)}",
                       ("zeros", "plain", "zeros")[i % 3])
            ctx = P.NumCtx(pt)
            if all(self.holds(c, ctx) for c in self.pc) and \
                    self.holds(cond, ctx):
                out.append(ctx)
                if len(out) >= want:
                    break
        return out

    def feasible(self, c):
        if c is FALSE:
            return False
        for ctx in self.sample_points():
            if self.holds(c, ctx):
                self.stats.numeric_feasible += 1
                return True
        r, model = self.check([c], nra_ms=self.branch_nra_ms)
        if r == "unsat":
            return False
        if model is not None:
            ctx = self.ctx_from_model(model)
            if ctx is not None and all(self.holds(x, ctx) for x in self.pc) \
                    and self.holds(c, ctx):
                self.points.append(ctx)
                return True
        pts = self.more_points(c, n=30)
        if pts:
            self.points.extend(pts)
        return True

    def ctx_from_model(self, model):
        pt = Point(self, f"{self.seed}/model", "plain")
        pt.update(model)
        return P.NumCtx(pt)

    # ------------------------------------------------------------ SMT
    def check(self, extra, nra_ms=None, want_model=True):
        """satisfiability of pc + extra: (sat|unsat|unknown, model)."""
        key = (frozenset(self.pckeys), tuple(c.get_key() for c in extra),
               nra_ms is not None and nra_ms > 1000)
        hit = self.qcache.get(key)
        if hit is not None:
            return hit
        t = time.time()
        r = self._check(extra, nra_ms)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        setattr(self.stats, r[0], getattr(self.stats, r[0]) + 1)
        if len(self.qcache) < 200000:
            self.qcache[key] = r
        return r

    def _tier(self, name):
        self.stats.by_tier[name] = self.stats.by_tier.get(name, 0) + 1

    def _check(self, extra, nra_ms):
        conds = list(self.pc) + list(extra)
        le = LogEnc(self)
        zs = [le.cond(c) for c in conds]
        if not any(z is None for z in zs):
            self._tier("log-linear")
            return le.solve(zs)
        sizes = [cond_size(c) for c in self.pc]
        if sum(sizes) > 300:
            # the small conditions of the path alone often settle it
            enc = LinEnc(self)
            s = z3.Solver()
            s.set("timeout", 500)
            for c, n in zip(self.pc, sizes):
                if n <= 30:
                    s.add(enc.cond(c))
            for c in extra:
                s.add(enc.cond(c))
            enc.finish(s)
            self._tier("lra on part of the path")
            if s.check() == z3.unsat:
                return ("unsat", None)
        enc = LinEnc(self)
        s = z3.Solver()
        s.set("timeout", 2000)
        for c in conds:
            s.add(enc.cond(c))
        enc.finish(s)
        r = s.check()
        self._tier("lra")
        if r == z3.unsat:
            return ("unsat", None)
        if r == z3.sat and not enc.exact and enc.squares(s):
            self._tier("lra with squares")
            s.set("timeout", 10000)
            if s.check() == z3.unsat:
                return ("unsat", None)
        if nra_ms == 0:
            return ("unknown", None)
        if enc.exact and r == z3.sat:
            m = s.model()
            model = {}
            for aid, x in enc.mono_vars.items():
                if len(aid) == 1 and aid[0][1] == 1 and \
                        ATOMS[aid[0][0]].kind == "var":
                    model[ATOMS[aid[0][0]].name] = zval(m.eval(x, True))
            return ("sat", model)
        try:
            nl = NraEnc(self)
            s = z3.Then("simplify", "solve-eqs", "qfnra-nlsat").solver() \
                if False else z3.SolverFor("QF_NRA")
            s.set("timeout", int(nra_ms or self.nra_ms))
            for c in conds:
                nl.prescan(c)
            for c in conds:
                s.add(nl.cond(c))
            nl.finish(s)
            r = s.check()
            self._tier("nra")
        except Unsupported:
            return ("unknown", None)
        if r == z3.unsat:
            return ("unsat", None)
        if r == z3.sat:
            m = s.model()
            model = {}
            for aid, x in nl.atom_vars.items():
                if ATOMS[aid].kind == "var":
                    v = zval(m.eval(x, True)) ** nl.root(aid)
                    model[ATOMS[aid].name] = v
            return ("sat", model)
        return ("unknown", None)

    # ------------------------------------------------------------ proofs
    def prove(self, c, nra_ms=None):
        """c holds on the whole current path?  ('proved'|'refuted'|'unknown',
        candidate numeric contexts)"""
        c = P.to_cond(c)
        self.stats.obligations += 1
        if c is TRUE:
            # sign analysis already simplified it; let the solver confirm
            self.stats.discharged += 1
            return "proved", []
        if c is FALSE:
            return "refuted", list(self.sample_points())
        if c.op == "and":
            cands = []
            worst = "proved"
            for x in c.args:
                r, cc = self.prove(x, nra_ms)
                self.stats.obligations -= 1
                if r == "refuted":
                    return r, cc
                if r == "unknown":
                    worst = r
                    cands += cc
                else:
                    self.stats.discharged -= 1
            if worst == "proved":
                self.stats.discharged += 1
            return worst, cands
        nc = cond_not(c)
        cands = [p for p in self.sample_points() if self.holds(nc, p, 1e-7)]
        if cands:
            return "refuted", cands
        r, model = self.check([nc], nra_ms=nra_ms or self.nra_ms)
        if r == "unsat":
            self.stats.discharged += 1
            return "proved", []
        cands = []
        if model is not None:
            cands.append(self.ctx_from_model(model))
        cands += self.more_points(nc, n=200)
        return ("refuted" if r == "sat" else "unknown"), cands

    def prove_eq(self, a, b, nra_ms=None):
        """a == b (as extended reals) on the whole current path?"""
        a, b = V.of(a), V.of(b)
        self.stats.obligations += 1
        if a.special or b.special:
            if a.special and a.special == b.special:
                self.stats.discharged += 1
                return "proved", []
            if "nan" in (a.special, b.special) or \
                    (a.special == "inf" or b.special == "inf"):
                return "refuted", list(self.sample_points()) or [None]
            s, v = (a, b) if a.special else (b, a)
            z = P.is_ninf(v)
            self.stats.obligations -= 1
            return self.prove(z, nra_ms)
        a, b = self.simp_zero(a), self.simp_zero(b)
        if a is None or b is None:      # log of a zero atom
            if a is None and b is None:
                self.stats.discharged += 1
                return "proved", []
            v = b if a is None else a
            self.stats.obligations -= 1
            return self.prove(P.is_ninf(v), nra_ms)
        # numeric disagreement is a candidate counterexample at once
        bad = [p for p in self.sample_points()
               if not num_close(p.value(a), p.value(b))]
        if bad:
            return "refuted", bad
        lhs, rhs = self.eq_sides(a, b)
        if lhs is not None:
            if self._solver_eq(lhs, rhs):
                self.stats.discharged += 1
                return "proved", []
            l2, r2 = self.subst_groups(lhs), self.subst_groups(rhs)
            if (l2, r2) != (lhs, rhs) and self._solver_eq(l2, r2):
                self.stats.discharged += 1
                return "proved", []
            d = P.p_add(lhs, P.p_neg(rhs))
            c = P.atomic_poly("eq", d)
        else:
            c = cmp_eq(a, b)
        self.stats.obligations -= 1
        r, cands = self.prove(c, nra_ms)
        if r != "proved" and lhs is not None:
            cands = self.far_apart(lhs, rhs, nra_ms) + cands
        return r, cands

    def far_apart(self, lhs, rhs, nra_ms=None):
        """points at which the sides differ by a factor, so that the
        difference is not lost in rounding on the real build."""
        d = P.p_add(lhs, P.p_neg(rhs))
        pos = {m: c for m, c in d.items() if c > 0}
        neg = {m: -c for m, c in d.items() if c < 0}
        com = {m: min(abs(c), abs(rhs[m])) for m, c in lhs.items()
               if m in rhs and (c > 0) == (rhs[m] > 0)}
        com = {m: c for m, c in com.items() if c > 0}
        out = []
        for x, y in ((pos, neg), (neg, pos)):
            # x - y is as large as what both sides have in common
            g = P.atomic_poly("lt", P.p_add(P.p_add(y, com), P.p_neg(x)))
            if g is FALSE:
                continue
            r, model = self.check([g], nra_ms=nra_ms or self.nra_ms)
            if r == "sat" and model is not None:
                out.append(self.ctx_from_model(model))
            out += self.more_points(g, n=60)
        return out

    def simp_zero(self, v):
        """drop terms killed by atoms known zero; None for log(0)."""
        if not self.zero_monos and \
                not any(s == "zero" for s in self.signs.values()):
            return v
        if self.zero_monos:
            up = {a for a, q in v.L.items() if q > 0}
            if any(z <= up for z in self.zero_monos):
                return None
        R = {m: c for m, c in v.R.items() if P.mono_sign(m) != "zero"}
        for a, q in v.L.items():
            if P.atom_sign(a) == "zero":
                if q > 0:
                    return None
                raise Unsupported("-log(0)")
        L = {}
        lc = v.lc
        for a, q in v.L.items():
            A = ATOMS[a]
            if A.kind == "let" and any(P.mono_sign(m) == "zero"
                                       for m in A.defn):
                d = {m: c for m, c in A.defn.items()
                     if P.mono_sign(m) != "zero"}
                if not d:
                    return None
                c, m = P.as_monomial(d)
                lc = P.norm_num(lc * P.qpow(c, q))
                for x, e in m:
                    L[x] = P.norm_num(L.get(x, 0) + e * q)
            else:
                L[a] = P.norm_num(L.get(a, 0) + q)
        L = {a: q for a, q in L.items() if q != 0}
        return V(R, L, lc)

    def eq_sides(self, a, b):
        """expanded polynomials (lhs, rhs) whose equality is a == b."""
        dR = P.p_add(a.R, P.p_neg(b.R))
        L = dict(a.L)
        for x, q in b.L.items():
            s = L.get(x, 0) - q
            if s == 0:
                L.pop(x, None)
            else:
                L[x] = s
        lc = P.qdiv(a.lc, b.lc)
        if not L and abs(P._biglog(lc)) < 1e-11:
            lc = 1
        if not L and lc == 1:
            # common polynomial factor structure first, then full expansion
            pos = {m: c for m, c in dR.items() if c > 0}
            neg = {m: -c for m, c in dR.items() if c < 0}
            (p, q), _ = P.clear_den([pos, neg])
            return self._expand0(p), self._expand0(q)
        if not dR or P.poly_is_zero(dR):
            N, D, cN = P.log_sides(L, lc)
            return P.p_scale(self._expand0(N), cN), self._expand0(D)
        e = P.expand_diff(dR)
        if list(e) == [()]:
            N, D, cN = P.log_sides(L, lc, float(e[()]))
            return P.p_scale(self._expand0(N), cN), self._expand0(D)
        return None, None

    def _expand0(self, p):
        e = P.expand_poly(p)
        if self.zero_monos or any(s == "zero" for s in self.signs.values()):
            e = {m: c for m, c in e.items() if P.mono_sign(m) != "zero"}
        return e

    def subst_groups(self, p):
        """eliminate the last variable of every simplex by sum = 1."""
        for g, names in self.groups.items():
            last = P.var_atom(names[-1], self.vars[names[-1]].sign)
            if P.atom_sign(last.id) == "zero":
                live = [n for n in names
                        if P.atom_sign(P.var_atom(n, self.vars[n].sign).id) != "zero"]
                if not live:
                    continue
                last = P.var_atom(live[-1], self.vars[live[-1]].sign)
            lid = last.id
            if not any(a == lid for m in p for a, _ in m):
                continue
            one_minus = {(): 1}
            for n in names:
                at = P.var_atom(n, self.vars[n].sign)
                if at.id != lid and P.atom_sign(at.id) != "zero":
                    one_minus = P.p_add(one_minus, {((at.id, 1),): -1})
            r = P.ZERO
            for m, c in p.items():
                e = dict(m).get(lid, 0)
                if e == 0:
                    r = P.p_add(r, {m: c})
                elif type(e) is int and e > 0:
                    rest = tuple(x for x in m if x[0] != lid)
                    r = P.p_add(r, P.p_mul({rest: c}, P.p_pow(one_minus, e)))
                else:
                    return p
            p = r
        return p

    def _solver_eq(self, p, q):
        """ask z3 whether two expanded polynomials can differ."""
        if not P.polys_close(p, q):
            return False
        # snap coefficients equal up to double rounding
        if p != q:
            q = {m: p.get(m, c) for m, c in q.items()}
            for m, c in p.items():
                q.setdefault(m, c)
        t = time.time()
        self.stats.queries += 1
        self._tier("identity")
        ok = z3_identity(p, q)
        self.stats.solver_s += time.time() - t
        if ok:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return ok


def num_close(x, y, rtol=1e-6, atol=1e-9):
    if x != x and y != y:
        return True
    if x == y:
        return True
    if math.isinf(x) or math.isinf(y) or x != x or y != y:
        # overflow of the sample evaluation is no disagreement
        return not (math.isfinite(x) or math.isfinite(y)) and x == y
    return abs(x - y) <= atol + rtol * max(abs(x), abs(y))


def zval(v):
    if z3.is_rational_value(v):
        n, d = v.numerator_as_long(), v.denominator_as_long()
        try:
            return n / d
        except OverflowError:
            return math.inf
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return a.numerator_as_long() / a.denominator_as_long()
    if z3.is_int_value(v):
        return v.as_long()
    return 0.0


_Z3V = {}


def zreal(name):
    v = _Z3V.get(name)
    if v is None:
        v = _Z3V[name] = z3.Real(name)
    return v


def zq(c):
    if type(c) is int:
        return z3.RealVal(c)
    return z3.Q(c.numerator, c.denominator)


def z3_identity(p, q):
    """unsat of p != q over the reals, p and q given as expanded polys."""
    def exp_name(a, e):
        if type(e) is int and e >= 0:
            return None
        return f"a{a}^{e}"

    def term(m, c):
        fs = []
        if c != 1 or not m:
            fs.append(zq(c))
        for a, e in m:
            if type(e) is int and 0 < e <= 8:
                fs.extend([zreal(f"a{a}")] * e)
            else:
                fs.append(zreal(f"a{a}^{e}"))
        return fs[0] if len(fs) == 1 else z3.Product(*fs)

    def tot(p):
        ts = [term(m, c) for m, c in p.items()]
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)
    if len(p) + len(q) > 6000:
        # group by leading atom so that z3 sees pieces of bounded size
        keys = {}
        for src, sg in ((p, 0), (q, 1)):
            for m, c in src.items():
                keys.setdefault(m[:3], ({}, {}))[sg][m] = c
        for a, b in keys.values():
            s = z3.Solver()
            s.set("timeout", 60000)
            s.add(tot(a) != tot(b))
            if s.check() != z3.unsat:
                return False
        return True
    s = z3.Solver()
    s.set("timeout", 60000)
    s.add(tot(p) != tot(q))
    return s.check() == z3.unsat


def cond_size(c):
    """number of monomials."""
    if c.op in ("true", "false"):
        return 1
    if c.op in ("and", "or", "not"):
        return sum(cond_size(x) for x in c.args)
    return sum(len(p) for p in c.args)


PRIMES = [p for p in range(2, 200) if all(p % d for d in range(2, p))]
_factors = {}


def factors(n):
    """(prime or rest, exponent) of a positive integer."""
    r = _factors.get(n)
    if r is None:
        r, m = [], n
        for p in PRIMES:
            k = 0
            while m % p == 0:
                m //= p
                k += 1
            if k:
                r.append((p, k))
            if m == 1:
                break
        if m > 1:
            r.append((m, 1))
        _factors[n] = r
    return r


class Logs:
    """logarithms of positive rationals, linear in those of their factors,
    which are known within bounds: equal constants stay equal."""
    consts = None

    def constlog(self, c):
        c = Fraction(c)
        if self.consts is None:
            self.consts = {}
        s = []
        for n, sg in ((c.numerator, 1), (c.denominator, -1)):
            for p, k in factors(n):
                v = self.consts.get(p)
                if v is None:
                    v = self.consts[p] = zreal(f"ln{p}")
                    x = Fraction(math.log(p))
                    d = x / 10 ** 14
                    self.side.append(v >= zq(x - d))
                    self.side.append(v <= zq(x + d))
                s.append(v if sg * k == 1 else sg * k * v)
        return s


class LinEnc(Logs):
    """linear abstraction: one real per monomial (with its sign), plus a
    log-linear encoding of comparisons between two monomials."""

    def __init__(self, eng):
        self.eng = eng
        self.mono_vars = {}
        self.lets_done = set()
        self.side = []
        self.logs = {}
        self.exact = True

    def mono(self, m):
        if not m:
            return z3.RealVal(1)
        v = self.mono_vars.get(m)
        if v is None:
            v = zreal("m" + "_".join(f"{a}^{e}" for a, e in m))
            self.mono_vars[m] = v
            s = P.mono_sign(m)
            if s == "pos":
                self.side.append(v > 0)
            elif s == "nonneg":
                self.side.append(v >= 0)
            elif s == "zero":
                self.side.append(v == 0)
            if len(m) == 1 and m[0][1] == 1:
                A = ATOMS[m[0][0]]
                if A.kind == "let" and A.id not in self.lets_done:
                    self.lets_done.add(A.id)
                    self.side.append(v == self.poly(A.defn))
                elif A.kind == "const":
                    self.side.append(v == zq(P.norm_num(A.defn)))
                elif A.kind != "var":
                    self.exact = False
            else:
                self.exact = False
        return v

    def poly(self, p):
        ts = []
        for m, c in p.items():
            if not m:
                ts.append(zq(c))
            elif c == 1:
                ts.append(self.mono(m))
            else:
                ts.append(zq(c) * self.mono(m))
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)

    def logv(self, a):
        t = self.logs.get(a)
        if t is None:
            t = self.logs[a] = (zreal(f"lg{a}"), z3.Bool(f"z{a}"))
            s = P.atom_sign(a)
            if s == "pos":
                self.side.append(z3.Not(t[1]))
            elif s == "zero":
                self.side.append(t[1])
        return t

    def logmono(self, p):
        (m, c), = p.items()
        for a, e in m:
            if P.atom_sign(a) == "real":
                return None
        zs = []
        s = [z3.RealVal(0)]
        if c != 1:
            s = self.constlog(c)
        for a, e in m:
            l, z = self.logv(a)
            s.append(zq(e) * l if e != 1 else l)
            zs.append(z)
        z = z3.Or(*zs) if zs else z3.BoolVal(False)
        return z, z3.Sum(*s)

    def cond(self, c):
        op = c.op
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "and":
            return z3.And(*[self.cond(x) for x in c.args])
        if op == "or":
            return z3.Or(*[self.cond(x) for x in c.args])
        if op == "not":
            x = c.args[0]
            if x.op == "eq":
                p, n = x.args
                e = self.poly(p) != self.poly(n)
                if len(p) == 1 and not n:
                    t = self.logmono(p)
                    if t is not None:
                        e = z3.And(e, z3.Not(t[0]))
                return e
            if x.op == "and":
                return z3.Or(*[self.cond(cond_not(y)) for y in x.args])
            if x.op == "or":
                return z3.And(*[self.cond(cond_not(y)) for y in x.args])
            return z3.Not(self.cond(x))
        p, n = c.args
        a, b = self.poly(p), self.poly(n)
        e = {"lt": a < b, "le": a <= b, "eq": a == b}[op]
        if len(p) <= 1 and len(n) <= 1:
            x = self.logmono(p) if p else (z3.BoolVal(True), None)
            y = self.logmono(n) if n else (z3.BoolVal(True), None)
            if x is not None and y is not None:
                zx, lx = x
                zy, ly = y
                if op == "lt":
                    f = z3.And(z3.Not(zy), z3.Or(zx, lx < ly)) \
                        if lx is not None and ly is not None else \
                        (z3.Not(zy) if lx is None else z3.BoolVal(False))
                elif op == "le":
                    f = z3.Or(zx, z3.And(z3.Not(zy), lx <= ly)) \
                        if lx is not None and ly is not None else zx
                else:
                    if lx is not None and ly is not None:
                        f = z3.Or(z3.And(zx, zy),
                                  z3.And(z3.Not(zx), z3.Not(zy), lx == ly))
                    else:
                        f = zx if lx is not None else zy
                e = z3.And(e, f)
        return e

    def finish(self, s):
        # definitions may add more side conditions while being translated
        i = 0
        while i < len(self.side):
            s.add(self.side[i])
            i += 1

    def squares(self, s, most=4000):
        """a + b >= 2|m| wherever a, b >= 0 and a b = m^2: (sqrt(a) -+
        sqrt(b))^2 >= 0.  -> number of lemmas."""
        pos, odd = {(): z3.RealVal(1)}, {}
        for m, v in self.mono_vars.items():
            (pos if P.mono_sign(m) in ("pos", "nonneg") else odd)[m] = v
        n = 0
        for m, v in odd.items():
            sq = {a: 2 * e for a, e in m}
            for a, x in pos.items():
                d = dict(sq)
                for k, e in a:
                    d[k] = d.get(k, 0) - e
                b = tuple(sorted((k, e) for k, e in d.items() if e))
                if b in pos and a <= b:
                    if a == b:
                        continue
                    t = x + pos[b]
                    s.add(t >= 2 * v, t >= -2 * v)
                    n += 1
                    if n >= most:
                        return n
        return n


class LogEnc(Logs):
    """exact encoding of conditions that compare single monomials of
    non-negative base variables: linear in their logarithms, with one
    boolean per variable for being zero."""

    def __init__(self, eng):
        self.eng = eng
        self.logs = {}
        self.side = []

    def mono(self, p):
        (m, c), = p.items()
        zs = []
        s = []
        k = 0
        if c != 1:
            s += self.constlog(c)
        for a, e in m:
            A = ATOMS[a]
            if A.kind == "const":
                k += float(e) * math.log(A.defn)
                continue
            if A.kind != "var":
                return None
            t = self.logs.get(a)
            if t is None:
                sg = P.atom_sign(a)
                if sg == "real":
                    return None
                t = self.logs[a] = (zreal(f"lg{a}"), z3.Bool(f"z{a}"))
                if sg == "pos":
                    self.side.append(z3.Not(t[1]))
                elif sg == "zero":
                    self.side.append(t[1])
            s.append(zq(e) * t[0] if e != 1 else t[0])
            if P.atom_sign(a) != "pos":
                zs.append(t[1])
        if k:
            s.append(zq(P.norm_num(k)))
        z = z3.Or(*zs) if len(zs) > 1 else zs[0] if zs else None
        return z, (z3.Sum(*s) if len(s) > 1 else s[0] if s else z3.RealVal(0))

    def cond(self, c):
        op = c.op
        if op in ("true", "false"):
            return z3.BoolVal(op == "true")
        if op in ("and", "or", "not"):
            xs = [self.cond(x) for x in c.args]
            if any(x is None for x in xs):
                return None
            return {"and": z3.And, "or": z3.Or, "not": z3.Not}[op](*xs)
        p, n = c.args
        if len(p) > 1 or len(n) > 1:
            return None
        x = self.mono(p) if p else (z3.BoolVal(True), None)
        y = self.mono(n) if n else (z3.BoolVal(True), None)
        if x is None or y is None:
            return None
        zx, lx = x
        zy, ly = y
        F = z3.BoolVal(False)
        if lx is None or ly is None:
            if lx is None and ly is None:
                return z3.BoolVal(op != "lt")
            if ly is None:              # p op 0
                return F if op == "lt" else (F if zx is None else zx)
            if op == "lt":              # 0 < n
                return z3.BoolVal(True) if zy is None else z3.Not(zy)
            if op == "le":
                return z3.BoolVal(True)
            return F if zy is None else zy
        cmp = {"lt": lx < ly, "le": lx <= ly, "eq": lx == ly}[op]
        if zx is None and zy is None:
            return cmp
        zx = F if zx is None else zx
        zy = F if zy is None else zy
        if op == "lt":
            return z3.And(z3.Not(zy), z3.Or(zx, cmp))
        if op == "le":
            return z3.Or(zx, z3.And(z3.Not(zy), cmp))
        return z3.Or(z3.And(zx, zy), z3.And(z3.Not(zx), z3.Not(zy), cmp))

    def solve(self, zs):
        s = z3.SolverFor("QF_LRA")
        s.set("timeout", 20000)
        for z in zs:
            s.add(z)
        for z in self.side:
            s.add(z)
        r = s.check()
        if r == z3.unsat:
            return ("unsat", None)
        if r != z3.sat:
            return ("unknown", None)
        m = s.model()
        model = {}
        vals = {}
        for a, (l, z) in self.logs.items():
            vals[a] = None if z3.is_true(m.eval(z)) else zval(m.eval(l, True))
        big = max([abs(v) for v in vals.values() if v is not None], default=0)
        for a, v in vals.items():
            if big > 300:
                return ("sat", None)
            model[ATOMS[a].name] = 0.0 if v is None else math.exp(v)
        return ("sat", model)


class NraEnc:
    """exact polynomial encoding (atoms as reals, lets by definition)."""

    def __init__(self, eng):
        self.eng = eng
        self.atom_vars = {}
        self.roots = {}
        self.side = []
        self.done = set()

    def root(self, aid):
        return self.roots.get(aid, 1)

    def scan(self, p):
        for m in p:
            for a, e in m:
                if type(e) is not int:
                    d = e.denominator
                    r = self.roots.get(a, 1)
                    r = r * d // math.gcd(r, d)
                    if r > 24:
                        raise Unsupported("root")
                    self.roots[a] = r
                if a not in self.done:
                    self.done.add(a)
                    A = ATOMS[a]
                    if A.kind == "let":
                        self.scan(A.defn)

    def atom(self, aid):
        v = self.atom_vars.get(aid)
        if v is None:
            A = ATOMS[aid]
            v = self.atom_vars[aid] = zreal(f"n{aid}r{self.root(aid)}")
            s = P.atom_sign(aid)
            if s == "pos":
                self.side.append(v > 0)
            elif s == "nonneg" or self.root(aid) > 1:
                self.side.append(v >= 0)
            elif s == "zero":
                self.side.append(v == 0)
            if A.kind == "let":
                x = v
                for _ in range(self.root(aid) - 1):
                    x = x * v
                self.side.append(x == self.poly(A.defn))
            elif A.kind == "const":
                self.side.append(v == zq(P.norm_num(A.defn ** (1 / self.root(aid)))))
        return v

    def poly(self, p):
        ts = []
        for m, c in p.items():
            fs = [zq(c)] if (c != 1 or not m) else []
            for a, e in m:
                k = e * self.root(a)
                k = int(k)
                v = self.atom(a)
                if k < 0:
                    raise Unsupported("negative exponent")
                if k > 40:
                    raise Unsupported("degree")
                fs.extend([v] * k)
            ts.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)

    def prescan(self, c):
        if c.op in ("lt", "le", "eq"):
            self.scan(c.args[0])
            self.scan(c.args[1])
        else:
            for x in c.args:
                self.prescan(x)

    def cond(self, c, top=True):
        if top:
            for x in self.eng.pc:
                self.prescan(x)
            self.prescan(c)
        op = c.op
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "and":
            return z3.And(*[self.cond(x, False) for x in c.args])
        if op == "or":
            return z3.Or(*[self.cond(x, False) for x in c.args])
        if op == "not":
            return z3.Not(self.cond(c.args[0], False))
        a, b = self.poly(c.args[0]), self.poly(c.args[1])
        return {"lt": a < b, "le": a <= b, "eq": a == b}[op]

    def finish(self, s):
        i = 0
        while i < len(self.side):
            s.add(self.side[i])
            i += 1


_ = (os, cmp_le, cond_and, cond_or)
