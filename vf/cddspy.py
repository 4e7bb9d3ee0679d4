"""Watching the double description backend: what the library hands to cdd, and
whether what cdd returns describes that same set. It decides whether a wrong
polyhedron is cdd's rounding (a recorded finding) or the library's own doing.
"""
import functools

import cdd
import numpy as np

from . import model as M
from .core import Inconclusive

_Matrix, _Polyhedron = cdd.Matrix, cdd.Polyhedron
LOG = None


def _rows(m):
    return np.array([m[k] for k in range(m.row_size)], dtype=float).reshape(m.row_size, m.col_size), sorted(m.lin_set), m.rep_type


class Matrix(_Matrix):
    def canonicalize(self):
        before = _rows(self)
        out = _Matrix.canonicalize(self)
        if LOG is not None and len(LOG) < 40:
            LOG.append((before, _rows(self)))
        return out


class Polyhedron(_Polyhedron):
    def __init__(self, mat):
        self._given = _rows(mat)

    def get_inequalities(self):
        out = _Polyhedron.get_inequalities(self)
        if LOG is not None and len(LOG) < 40:
            LOG.append((self._given, _rows(out)))
        return out

    def get_generators(self):
        out = _Polyhedron.get_generators(self)
        if LOG is not None and len(LOG) < 40:
            LOG.append((self._given, _rows(out)))
        return out


def support(desc, u):
    """sup u.x of the described set: a number, inf, or None (empty or unknown)."""
    G, lin, rep = desc
    if rep == cdd.RepType.GENERATOR:
        if len(G) == 0:
            return None
        V, Y = G[G[:, 0] != 0][:, 1:], G[G[:, 0] == 0][:, 1:]
        L = G[[k for k in lin if G[k, 0] == 0]][:, 1:]
        Y = np.vstack((Y, -L))
        n = np.linalg.norm(Y, axis=1)
        if np.any(Y[n > 0] @ u / n[n > 0] > 1e-7):
            return np.inf
        return float(np.max(V @ u)) if len(V) else 0.0
    if len(G) == 0:
        return np.inf
    n = np.linalg.norm(G[:, 1:], axis=1)
    n[n == 0] = 1.0
    G = G / n[:, None]
    A, b = -G[:, 1:], G[:, 0]
    A, b = np.vstack((A, -A[lin])), np.concatenate((b, -b[lin]))
    r = M.lp(-u, A_ub=A, b_ub=b)
    return -r.fun if r.status == 0 else np.inf if r.status == 3 else None


def wrong(given, got):
    """Does cdd's answer describe another set than what it was given?"""
    G = given[0]
    if len(G) == 0:
        return False
    # only input of ordinary size is cdd's own affair
    big = np.abs(G[:, 1:]).max()
    if not 1e-2 < big < 1e3 or np.abs(G[:, 0]).max() > 1e3:
        return False
    d = G.shape[1] - 1
    rng = np.random.default_rng(len(G))
    U = np.vstack((rng.normal(size=(24, d)), np.eye(d), -np.eye(d)))
    N = got[0][:, 1:] if len(got[0]) else np.zeros((0, d))
    U = np.vstack((U, N[:60], -N[:60], G[:60, 1:], -G[:60, 1:]))
    U = U[np.linalg.norm(U, axis=1) > 1e-9]
    U /= np.linalg.norm(U, axis=1, keepdims=True)
    for u in U:
        a, b = support(given, u), support(got, u)
        if a is None or b is None:
            if (a is None) != (b is None) and len(got[0]) == 0:
                return True
            continue
        if a != b and not abs(a - b) <= 1e-7 * max(1.0, abs(a)):
            return True
    return False


def blame(mech):
    """Decorates a group: failures are attributed to ``mech`` if cdd got what
    the library gave it wrong."""

    def deco(fn):
        @functools.wraps(fn)
        def run(c, rng, i):
            global LOG
            log = LOG = []
            cdd.Matrix, cdd.Polyhedron = Matrix, Polyhedron
            memo = []

            def excuse():
                if not memo:
                    try:
                        memo.append(mech if any(wrong(*e) for e in list(log)) else None)
                    except Inconclusive:
                        memo.append(None)
                return memo[0]

            c.excuse = excuse
            try:
                return fn(c, rng, i)
            finally:
                LOG = None
                cdd.Matrix, cdd.Polyhedron = _Matrix, _Polyhedron

        return run

    return deco


def beyond_floats(fn):
    """Decorates a group: a case in which cdd got what the library gave it wrong decides nothing."""

    def excuse_or_drop(c, rng, i):
        mine = c.excuse

        def excuse():
            if mine():
                raise Inconclusive("floating-point double description breaks down on this input")

        c.excuse = excuse
        return fn(c, rng, i)

    run = blame("cdd-floats")(excuse_or_drop)
    run.__name__, run.__doc__ = fn.__name__, fn.__doc__
    return run
