"""Run-time monitors around the real library, installed from the outside.

* every public method/function call of rigeo is counted (what was exercised);
* every convex solve is observed (requested solver, status);
* random generators handed to the library count what is drawn from them.
Nothing here changes what the library computes, except that a solve with no
usable solver is sent to an installed one (there is no MOSEK licence here).
"""
import functools
import inspect
import os
import types

import numpy as np
import cvxpy as cp
import rigeo as rg
import rigeo.shape.ellipsoid as _ell

_SRC = os.path.realpath(os.environ.get("VERIF_SRC", "/repo/src"))
assert os.path.realpath(rg.__file__).startswith(_SRC + os.sep), (rg.__file__, _SRC)

_counts = {}
SOLVES = []  # (requested solver, status) of every solve since reset()
OUTER = []  # outermost public calls since reset()
_depth = [0]
_installed = [False]

# called millions of times, and counting them says nothing
_SKIP = {"MomentIndex"}

CLASSES = [
    rg.Box, rg.ConvexPolyhedron, rg.Ellipsoid, rg.Cylinder, rg.Capsule,
    rg.InertialParameters, rg.RigidBody, rg.SpanForm, rg.FaceForm,
    rg.SpatialVector, rg.Polynomial, rg.MomentMatrix,
]


def _wrap(fn, label):
    @functools.wraps(fn)
    def w(*a, **k):
        _counts[label] = _counts.get(label, 0) + 1
        return fn(*a, **k)

    return w


def _install_counts():
    for cls in CLASSES:
        for name, attr in list(vars(cls).items()):
            if name.startswith("_") and name not in ("__init__", "__add__", "__sub__", "__mul__", "__truediv__", "__radd__"):
                continue
            label = f"{cls.__name__}.{name}"
            if isinstance(attr, types.FunctionType):
                setattr(cls, name, _wrap(attr, label))
            elif isinstance(attr, classmethod):
                setattr(cls, name, classmethod(_wrap(attr.__func__, label)))
            elif isinstance(attr, staticmethod):
                setattr(cls, name, staticmethod(_wrap(attr.__func__, label)))
            elif isinstance(attr, property) and attr.fget is not None:
                setattr(cls, name, property(_wrap(attr.fget, label), attr.fset, attr.fdel, attr.__doc__))
    for name, fn in list(vars(rg).items()):
        if isinstance(fn, types.FunctionType) and fn.__module__.startswith("rigeo"):
            setattr(rg, name, _wrap(fn, name))


_orig_solve = cp.Problem.solve
USABLE = {"CLARABEL", "SCS", "OSQP", "ECOS", "SCIPY", "HIGHS", "GLPK", "ECOS_BB"}


def _solve(self, *args, **kw):
    req = kw.get("solver")
    eff = req
    if req is None or str(req).upper() not in USABLE:
        eff = cp.CLARABEL
    kw["solver"] = eff
    try:
        with np.errstate(all="ignore"):
            r = _orig_solve(self, *args, **kw)
        SOLVES.append((None if req is None else str(req).upper(), self.status))
    except BaseException as e:
        SOLVES.append((None if req is None else str(req).upper(), type(e).__name__))
        raise
    finally:
        k = f"cvxpy.solve[{req}]"
        _counts[k] = _counts.get(k, 0) + 1
    return r


def install():
    if _installed[0]:
        return
    _installed[0] = True
    _install_counts()
    cp.Problem.solve = _solve


def reset():
    SOLVES.clear()


def counts():
    return dict(_counts)


class DrawLimit(Exception):
    """More randomness was drawn than any terminating sampler needs."""


class CountingRNG(np.random.Generator):
    """A generator that counts the calls made to it and the values it hands
    out, and stops a caller that never stops drawing (logical steps, not
    wall-clock time, bound termination)."""

    def __init__(self, seed, max_calls=10**6, max_values=10**9):
        super().__init__(np.random.PCG64(seed))
        self.calls = 0
        self.values = 0
        self.max_calls, self.max_values = max_calls, max_values

    def _tick(self, r):
        self.calls += 1
        self.values += int(np.size(r)) if r is not None else 1
        if self.calls > self.max_calls or self.values > self.max_values:
            raise DrawLimit(f"{self.calls} calls, {self.values} values drawn")
        return r


def _mk(name):
    base = getattr(np.random.Generator, name)

    def f(self, *a, **k):
        return self._tick(base(self, *a, **k))

    f.__name__ = name
    return f


for _n in ("random", "uniform", "normal", "standard_normal", "multinomial", "integers",
           "choice", "shuffle", "permutation", "permuted", "exponential", "standard_exponential",
           "dirichlet", "multivariate_normal", "beta", "gamma"):
    if hasattr(np.random.Generator, _n):
        setattr(CountingRNG, _n, _mk(_n))
