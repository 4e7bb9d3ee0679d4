"""An independent moment relaxation (numpy index arithmetic, own variables).

For atomic measures on {x: g(x) >= 0} of order d: vectors y indexed by the
monomials up to degree 2d with M_d(y) >= 0 and M_{d-ceil(deg g/2)}(g y) >= 0.
The set of (mass, h, H) read off such y, in a normalized local frame."""
import functools
import itertools

import cvxpy as cp
import numpy as np
import scipy.sparse as sp

from . import model as M


@functools.lru_cache(None)
def monomials(n, d):
    out = [a for a in itertools.product(range(d + 1), repeat=n) if sum(a) <= d]
    return sorted(out, key=lambda a: (sum(a), [-x for x in a]))


@functools.lru_cache(None)
def index(n, d):
    return {a: k for k, a in enumerate(monomials(n, d))}


def locmat(n, d, g):
    """Sparse map y -> vec of the localizing matrix of g (dict exps -> coeff)."""
    deg = max(sum(a) for a, v in g.items() if v != 0)
    r = d - (deg + 1) // 2
    B, idx = monomials(n, r), index(n, 2 * d)
    rows, cols, vals = [], [], []
    for i, a in enumerate(B):
        for j, b in enumerate(B):
            for e, v in g.items():
                if v:
                    rows.append(i * len(B) + j)
                    cols.append(idx[tuple(x + y + z for x, y, z in zip(a, b, e))])
                    vals.append(v)
    k = len(B)
    return sp.csr_matrix((vals, (rows, cols)), shape=(k * k, len(idx))), k


def frame(m):
    """World from normalized local coordinates (4x4)."""
    lo, hi = m.bbox()
    s = max(float(np.max(hi - lo)) / 2, 1e-9)
    T = np.eye(4)
    if isinstance(m, (M.Cyl, M.Ell, M.BoxM)):
        T[:3, :3], T[:3, 3] = m.R * s, m.c
    else:
        T[:3, :3], T[:3, 3] = s * np.eye(3), (lo + hi) / 2
    return T, s


def affine(a, b):
    g = {(0, 0, 0): float(b)}
    for k in range(3):
        e = [0, 0, 0]
        e[k] = 1
        g[tuple(e)] = -float(a[k])
    return g


def polys(m, T, s):
    """Describing polynomials of the model in the local frame (unit scale)."""
    if isinstance(m, M.Cyl):
        h, r = m.L / 2 / s, m.r / s
        return [
            {(0, 0, 1): 1.0, (0, 0, 0): h},
            {(0, 0, 1): -1.0, (0, 0, 0): h},
            {(2, 0, 0): -1.0, (0, 2, 0): -1.0, (0, 0, 0): r * r},
        ]
    if isinstance(m, M.Ell):
        h = m.h / s
        return [{(2, 0, 0): -1 / h[0] ** 2, (0, 2, 0): -1 / h[1] ** 2, (0, 0, 2): -1 / h[2] ** 2, (0, 0, 0): 1.0}]
    if isinstance(m, M.BoxM):
        I = np.eye(3)
        return [affine(k * I[i], m.h[i] / s) for i in range(3) for k in (1, -1)]
    # polyhedron: facets G x <= g in the plane p0 + B z
    A = m.G @ m.B.T
    b = m.g + A @ m.p0
    out = []
    for a, v in zip(A, b):
        a2, v2 = T[:3, :3].T @ a, v - a @ T[:3, 3]
        k = np.linalg.norm(a2)
        out.append(affine(a2 / k, v2 / k))
    if m.B.shape[1] < 3:
        # equations of the plane or line, as pairs of inequalities
        U = np.linalg.svd(m.B, full_matrices=True)[0][:, m.B.shape[1]:] if m.B.shape[1] else np.eye(3)
        for u in U.T:
            v2 = u @ m.p0 - u @ T[:3, 3]
            u2 = T[:3, :3].T @ u
            k = np.linalg.norm(u2)
            out.append(affine(u2 / k, v2 / k))
            out.append(affine(-u2 / k, -v2 / k))
    return out


class Relaxation:
    """Extreme values of linear functions of J over unit-mass bodies."""

    def __init__(self, m, d=2):
        self.T, s = frame(m)
        self.s = s
        n = 3
        y = cp.Variable(len(monomials(n, 2 * d)))
        self.y = y
        cons = []
        K, k = locmat(n, d, {(0, 0, 0): 1.0})
        cons.append(cp.reshape(K @ y, (k, k), order="C") >> 0)
        for g in polys(m, self.T, s):
            K, k = locmat(n, d, g)
            cons.append(cp.reshape(K @ y, (k, k), order="C") >> 0)
        idx = index(n, 2 * d)
        E = np.zeros((16, y.size))
        u = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, 0)]
        for i in range(4):
            for j in range(4):
                E[4 * i + j, idx[tuple(np.add(u[i], u[j]))]] = 1
        self.E = E
        self.cons = cons + [y[0] == 1]
        self.J = cp.reshape(E @ y, (4, 4), order="C")
        self.p = cp.Parameter(y.size)
        self.prob = cp.Problem(cp.Maximize(self.p @ y), self.cons)

    def maximum(self, C):
        """max <C, J_world> over the relaxation with unit mass."""
        from .cvx import solve

        Cl = self.T.T @ C @ self.T
        self.p.value = self.E.T @ Cl.ravel()
        return solve(self.prob, (cp.CLARABEL,))
