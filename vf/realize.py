"""Families of density-realizability constraints, with reference models."""
import numpy as np
import cvxpy as cp
import rigeo as rg

from . import gen, model as M, lasserre

FAMILIES = ["poly-moment", "poly-vertex", "box-moment", "box-vertex", "box-custom", "cyl-moment", "cyl-custom", "ell", "body"]


def _k(rng, kinds, flat, many=False):
    k = str(rng.choice(kinds))
    if k == "poly":
        lib, m = gen.poly(rng, 3, flat, many=many)
    else:
        lib, m = getattr(gen, k)(rng, flat=flat, big=False)
    return lib, m


def thin(m):
    """Too thin for the solvers to be judged."""
    h = getattr(m, "h", None)
    return h is not None and np.any((h > 0) & (h < 0.08))


class Setup:
    def __init__(self, rng, family=None, d=None, flat=None):
        self.family = family or str(rng.choice(FAMILIES))
        self.d = d or int(rng.choice([1, 2, 2, 2, 2, 2, 2, 2]))
        if flat is None:
            flat = rng.random() < 0.2
        while True:
            if self.family == "body":
                n = int(rng.integers(1, 4))
                kinds = ["box", "poly", "ellipsoid", "cylinder", "ellipsoid"]
                self.parts = [_k(rng, kinds, flat and rng.random() < 0.7) for _ in range(n)]
            else:
                kind = {"pol": "poly", "box": "box", "cyl": "cylinder", "ell": "ellipsoid"}[self.family[:3]]
                self.parts = [_k(rng, [kind], flat, self.family == "poly-vertex")]
            far = max(np.abs(np.array(m.bbox())).max() for _, m in self.parts)
            if not any(thin(m) for _, m in self.parts) and far < (1.5 if self.d >= 3 else 2.5):
                break
        self.flat = flat
        self.models = [m for _, m in self.parts]
        self.lib = self.parts[0][0]
        self.form = "vector" if rng.random() < 0.4 else "matrix"
        if self.family == "body":
            shapes = [l for l, _ in self.parts]
            arg = shapes[0] if len(shapes) == 1 and rng.random() < 0.5 else shapes
            self.lib = rg.RigidBody(arg)

    def describe(self):
        return dict(family=self.family, d=self.d, form=self.form, flat=self.flat, models=[repr(vars(m)) if not isinstance(m, M.Poly) else repr(m.V.tolist()) for m in self.models])

    def generate(self, var, eps=0, d=None):
        f, lib, d = self.family, self.lib, d or self.d
        if f.endswith("-moment") or f == "body":
            return lib.moment_sdp_constraints(var, eps=eps, d=d)
        if f.endswith("-vertex"):
            return lib.moment_vertex_constraints(var, eps=eps)
        if f.endswith("-custom"):
            return lib.moment_custom_vertex_constraints(var, eps=eps)
        return lib.moment_constraints(var, eps=eps)

    def variables(self, form=None, free=False):
        """(the variable handed over, the pseudo-inertia matrix it stands for)"""
        if (form or self.form) == "vector":
            t = cp.Variable(10)
            B = np.zeros((16, 10))
            for k in range(10):
                e = np.zeros(10)
                e[k] = 1
                I = np.zeros((3, 3))
                I[np.triu_indices(3)] = e[4:]
                I = I + np.triu(I, 1).T
                J = np.zeros((4, 4))
                J[:3, :3] = 0.5 * np.trace(I) * np.eye(3) - I
                J[:3, 3] = J[3, :3] = e[1:4]
                J[3, 3] = e[0]
                B[:, k] = J.ravel()
            return t, cp.reshape(B @ t, (4, 4), order="C")
        J = cp.Variable((4, 4)) if free else cp.Variable((4, 4), symmetric=True)
        return J, J


class Extremes:
    """Extreme values of <C, J> over the constraints with unit mass."""

    def __init__(self, s, eps=0, form=None, free=False, d=None):
        var, J = s.variables(form, free)
        self.J = J
        self.p = cp.Parameter((4, 4))
        self.prob = cp.Problem(cp.Maximize(cp.sum(cp.multiply(self.p, J))), s.generate(var, eps, d) + [J[3, 3] == 1])

    def judge(self, C, ok, agree):
        from .cvx import judge

        self.p.value = C
        return judge(self.prob, ok, agree)


class Distance:
    """Distance from a pseudo-inertia matrix to the feasible set."""

    def __init__(self, s, eps=0, d=None):
        var, J = s.variables()
        self.p = cp.Parameter((4, 4), symmetric=True)
        self.prob = cp.Problem(cp.Minimize(cp.norm(J - self.p, "fro")), s.generate(var, eps, d))

    def judge(self, J, ok, agree):
        from .cvx import judge

        self.p.value = (J + J.T) / 2
        return judge(self.prob, ok, agree)


def body_in(rng, models, kind):
    """Point masses inside the union of the models."""
    ms, Q = [], []
    for m in models:
        n = 1 if kind == "one" else int(rng.integers(1, 6))
        X = m.inside(rng, n) if kind == "inside" else m.boundary(rng, n)
        if kind in ("one", "extreme"):
            if isinstance(m, M.Poly):
                X = m.V[rng.integers(len(m.V), size=n)]
            else:
                X = m.support_point(rng.normal(size=(n, 3)))
        w = gen.masses(rng, len(X))
        if len(models) > 1 and rng.random() < 0.3:
            w = w * 0
        Q.append(np.atleast_2d(X))
        ms.append(w)
    ms, Q = np.concatenate(ms), np.vstack(Q)
    if ms.sum() <= 0:
        ms = ms + 0.5
    return ms, Q


def max_quadratic_ball(A, b):
    """max x'Ax + 2 b'x over the unit ball."""
    w, V = np.linalg.eigh(A)
    g = V.T @ b
    lo = max(0.0, w[-1])
    f = lambda t: lo + np.exp(t) + np.sum(g[:, None] ** 2 / np.maximum(lo + np.exp(t)[None] - w[:, None], 1e-300), axis=0)
    # the dual is convex in the multiplier; search it on a log scale
    hi = 2 * (np.linalg.norm(A) + np.linalg.norm(b) + 1)
    a, z, best = np.log(1e-14 * hi), np.log(hi), np.inf
    for _ in range(12):
        ts = np.linspace(a, z, 60)
        v = f(ts)
        k = int(np.argmin(v))
        best = min(best, float(v[k]))
        a, z = ts[max(k - 1, 0)], ts[min(k + 1, 59)]
    return best


def max_quadratic_ell(C, m):
    """max [x 1] C [x 1]' over the ellipsoid (flat ones included): exact."""
    nz = m.h > 0
    U = (m.R * m.h)[:, nz]
    T = np.zeros((4, nz.sum() + 1))
    T[:3, :-1], T[:3, -1], T[3, -1] = U, m.c, 1
    K = T.T @ C @ T
    if not nz.any():
        return float(K[0, 0])
    return K[-1, -1] + max_quadratic_ball(K[:-1, :-1], K[:-1, -1])


def objectives(rng, s, n):
    """Linear objectives of every kind, in a frame where the shape is unit size."""
    T, size = lasserre.frame(s.models[0])
    if size < 1e-3:
        T[:3, :3] = np.eye(3)
    Ti = np.linalg.inv(T)
    for q in range(n):
        C = rng.normal(size=(4, 4))
        k = q % 6
        if k == 1:
            w = rng.normal(size=4)
            C = np.outer(w, w)
        elif k == 2:
            C[:3, :3] -= rng.uniform(0, 4) * np.eye(3)
        elif k == 3:
            C = np.zeros((4, 4))
            C[:3, 3] = rng.normal(size=3)
        elif k == 4:
            C = np.zeros((4, 4))
            a, b = rng.choice(3, 2, replace=False)
            C[a, b] = rng.choice([-1, 1])
            C[:3, :3] -= rng.uniform(0, 0.3) * np.eye(3)
        elif k == 5:
            C = np.zeros((4, 4))
            C[0, 1], C[0, 2], C[1, 2] = rng.choice([-1, 1], 3) * rng.uniform(0.5, 1.5, 3)
            C[:3, :3] -= rng.uniform(0, 1.5) * np.eye(3)
            C[:3, 3] = 0.3 * rng.normal(size=3)
        C = C + C.T
        C /= np.linalg.norm(C)
        yield k, Ti.T @ C @ Ti


def value_at(C, P):
    X = np.hstack((np.atleast_2d(P), np.ones((len(np.atleast_2d(P)), 1))))
    return np.einsum("ij,jk,ik->i", X, C, X)
