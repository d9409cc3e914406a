"""execute hmmlearn's Python sources from /repo with chosen stand-ins for the
libraries below them (numpy, scipy, sklearn) and for the C++ extension."""
import ast
import builtins
import importlib
import os
import sys
import types

import scipy
import scipy.special
import scipy.linalg
import scipy.stats
import sklearn
import sklearn.cluster
import sklearn.utils
import sklearn.utils.validation

from . import npshim as N

PKG = "hmmlearn"
COVERED = {}
TOOL = 3


def start_coverage(root):
    """record which hmmlearn functions were executed symbolically."""
    mon = sys.monitoring
    try:
        mon.use_tool_id(TOOL, "symx")
    except ValueError:
        return

    def on_start(code, off):
        f = code.co_filename
        if f.startswith(root):
            COVERED.setdefault(
                f"{os.path.relpath(f, root)}:{code.co_qualname}", 0)
        return mon.DISABLE
    mon.register_callback(TOOL, mon.events.PY_START, on_start)
    mon.set_events(TOOL, mon.events.PY_START)


class Package:
    """lazily loaded copy of the hmmlearn package."""

    def __init__(self, src, kernels, overrides=None):
        self.src = src
        self.mods = {}
        self.over = overrides or {}
        self.kernels = kernels
        self.np = N.NumpyProxy(self.over.get("numpy"),
                               self.over.get("nplinalg"))
        special = N.Proxy(scipy.special,
                          {**N.SPECIAL, **self.over.get("special", {})})
        linalg = N.Proxy(scipy.linalg, {
            "cholesky": N.sp_cholesky, "solve_triangular": N.solve_triangular,
            "inv": N.inv, "det": N.det, "eigvalsh": N.eigvalsh,
            "solve": N.solve, **self.over.get("linalg", {})})
        stats = N.Proxy(scipy.stats, {
            "multinomial": N._Dist(scipy.stats.multinomial,
                                   N._multinomial_logpmf,
                                   N._multinomial_rvs),
            "poisson": N._Dist(scipy.stats.poisson, N._poisson_logpmf,
                               N._poisson_rvs),
            **self.over.get("stats", {})})
        val = N.Proxy(sklearn.utils.validation, {
            "check_array": N.check_array,
            "check_random_state": N.check_random_state,
            **self.over.get("validation", {})})
        cluster = N.Proxy(sklearn.cluster, self.over.get("cluster", {}))
        utils = N.Proxy(sklearn.utils, {
            "check_array": N.check_array,
            "check_random_state": N.check_random_state, "validation": val,
            **self.over.get("validation", {})})
        self.ext = {
            "math": N.MathProxy(), "numpy": self.np, "numpy.linalg": self.np.linalg,
            "scipy": N.Proxy(scipy, {"special": special, "linalg": linalg,
                                     "stats": stats}),
            "scipy.special": special, "scipy.linalg": linalg,
            "scipy.stats": stats,
            "sklearn": N.Proxy(sklearn, {"cluster": cluster,
                                         "utils": utils}),
            "sklearn.cluster": cluster, "sklearn.utils": utils,
            "sklearn.utils.validation": val,
        }
        b = dict(vars(builtins))
        b["__import__"] = self._import
        b["_symfloat_"] = N.to_float
        b.update(self.over.get("builtins", {}))
        self.builtins = b
        pk = types.ModuleType(PKG)
        pk.__path__ = [src]
        pk.__package__ = PKG
        self.pkg = pk

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = (globals or {}).get("__package__") or PKG
            parts = base.split(".")
            base = ".".join(parts[:len(parts) - level + 1])
            name = f"{base}.{name}" if name else base
        if name == PKG or name.startswith(PKG + "."):
            sub = name[len(PKG) + 1:]
            m = self.module(sub) if sub else self.pkg
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and m is self.pkg:
                        setattr(m, f, self.module(f))
                return m
            return self.pkg
        if name in self.ext:
            if fromlist:
                return self.ext[name]
            top = name.split(".")[0]
            return self.ext[top]
        m = builtins.__import__(name, globals, locals, fromlist, 0)
        return m

    def module(self, sub):
        m = self.mods.get(sub)
        if m is not None:
            return m
        if sub == "_hmmc":
            self.mods[sub] = self.kernels
            setattr(self.pkg, sub, self.kernels)
            return self.kernels
        path = os.path.join(self.src, *sub.split(".")) + ".py"
        if not os.path.exists(path):
            d = path[:-3]
            if os.path.isdir(d):
                path = os.path.join(d, "__init__.py")
            else:
                raise ImportError(f"cannot import hmmlearn.{sub}")
        m = types.ModuleType(f"{PKG}.{sub}")
        m.__file__ = path
        m.__package__ = PKG
        m.__dict__["__builtins__"] = self.builtins
        self.mods[sub] = m
        src = open(path).read()
        # float(x) keeps a symbolic x as it is
        tree = ast.parse(src, path)
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id == "float" and len(n.args) == 1:
                n.func.id = "_symfloat_"
        code = compile(tree, path, "exec")
        exec(code, m.__dict__)
        setattr(self.pkg, sub, m)
        return m


_ = importlib
