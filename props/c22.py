"""C22 the interpreter lock around the compiled kernels."""
from symx import probe
from symx.runner import Harness
from props.c21 import ASSUMPTIONS as _A, kernel, shape_sym

ASSUMPTIONS = _A + [
    "operations on Python objects are those of the pybind11 interface: "
    "construction, conversion, reshaping, reference counts",
    "releasing the lock for the recursion is judged by the number of array "
    "cells stored meanwhile (at least one per time step after the first)",
]


def harnesses(tier):
    hs = []
    b = 3 if tier == "quick" else 5
    for name, (dims, outs) in probe.SPEC.items():
        nd = [len(d) for d in dims]
        hs.append(Harness(
            f"lock-{name}", kernel,
            dict(name=name, ndims=nd, bound=b, gil=True, reps=6),
            symrun=shape_sym, cost=60, limit=300,
            bound=f"{name}: every path, dimensions from 0 to {b}, "
            "independently"))
        hs.append(Harness(
            f"lock-ranks-{name}", kernel,
            dict(name=name, ndims=nd, bound=2, ranks=True, gil=True, reps=6),
            symrun=shape_sym, cost=30, limit=200,
            bound=f"{name}: one argument of another rank (0 to 3), "
            "dimensions from 0 to 2"))
    return hs
