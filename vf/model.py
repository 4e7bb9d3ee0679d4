"""Reference models: small, independent, numpy/scipy-only descriptions of the
mathematical objects that the library's shapes stand for."""
import itertools
import math

import numpy as np
from scipy.optimize import linprog, nnls
from scipy.spatial import ConvexHull

PLANE = 1e-9  # off-plane distance (relative) that still counts as in-plane


def _unit(x):
    return x / np.linalg.norm(x, axis=-1, keepdims=True)


class Model:
    flat = False

    def classify(self, P, band):
        """+1 surely inside, -1 surely outside, 0 too close to the boundary."""
        P = np.atleast_2d(P)
        g, off = self.viol(P)
        S = self.scale()
        out = (g > band) | (off > band)
        ins = (g < -band) & (off <= PLANE * S)
        if self.rank() == 0:
            ins = np.linalg.norm(P - self.c, axis=1) <= PLANE * S
        return np.where(ins, 1, np.where(out, -1, 0))

    def scale(self):
        return max(1.0, float(np.max(np.abs(self.bbox()))))

    def size(self):
        """Like scale, for shapes of any size."""
        return max(1e-12, float(np.max(np.abs(self.bbox()))))

    def bbox(self):
        d = self.dim
        I = np.eye(d)
        hi = self.support(I)
        lo = -self.support(-I)
        return np.array([lo, hi])


class Ell(Model):
    kind = "ellipsoid"

    def __init__(self, h, R=None, c=None):
        self.h = np.array(h, float)
        d = self.dim = len(self.h)
        self.R = np.eye(d) if R is None else np.array(R, float)
        self.c = np.zeros(d) if c is None else np.array(c, float)

    def rank(self):
        return int(np.sum(self.h > 1e-8))

    def viol(self, P):
        q = (P - self.c) @ self.R
        nz = self.h > 1e-8
        off = np.max(np.abs(q[:, ~nz]), axis=1) if np.any(~nz) else np.zeros(len(P))
        if not nz.any():
            return np.full(len(P), -np.inf), off
        F = np.sqrt(np.sum((q[:, nz] / self.h[nz]) ** 2, axis=1))
        return (F - 1) * np.min(self.h[nz]), off

    def support(self, U):
        return U @ self.c + np.linalg.norm((U @ self.R) * self.h, axis=1)

    def support_point(self, U):
        w = (U @ self.R) * self.h
        n = np.linalg.norm(w, axis=1, keepdims=True)
        n[n == 0] = 1
        return ((w / n) * self.h) @ self.R.T + self.c

    def boundary(self, rng, n):
        w = rng.normal(size=(n, self.dim))
        w[:, self.h <= 1e-8] = 0
        if self.rank():
            w = _unit(w)
        return (w * self.h) @ self.R.T + self.c

    def inside(self, rng, n):
        w = rng.normal(size=(n, self.dim))
        w = _unit(w) * rng.random((n, 1)) ** (1.0 / self.dim)
        return (w * self.h) @ self.R.T + self.c

    def transform(self, R, t):
        return Ell(self.h, R @ self.R, R @ self.c + t)

    def volume(self):
        d = self.dim
        return math.pi ** (d / 2) / math.gamma(d / 2 + 1) * float(np.prod(self.h))

    def E(self):
        return self.R @ np.diag(self.h**2) @ self.R.T

    def params(self):
        return dict(h=self.h, R=self.R, c=self.c)


class Poly(Model):
    """Convex hull of points, through its own affine hull and qhull."""

    kind = "poly"

    def __init__(self, V):
        self.V = np.array(V, float)
        self.dim = self.V.shape[1]
        self.c = self.V.mean(axis=0)
        D = self.V - self.V[0]
        U, s, Wt = np.linalg.svd(D, full_matrices=True)
        tol = 1e-9 * max(1.0, np.max(np.abs(self.V)))
        self._r = int(np.sum(s > tol))
        self.B = Wt[: self._r].T
        self.N = Wt[self._r:].T
        Q = D @ self.B
        if self._r == 0:
            self.G, self.g = np.zeros((0, 0)), np.zeros(0)
        elif self._r == 1:
            self.G = np.array([[1.0], [-1.0]])
            self.g = np.array([Q.max(), -Q.min()])
        else:
            H = ConvexHull(Q, qhull_options="Qt")
            E = H.equations
            keep = []
            for k in range(len(E)):  # merge the triangulated pieces of a facet
                if not keep or np.min(np.max(np.abs(E[keep] - E[k]), axis=1)) > 1e-7:
                    keep.append(k)
            self.G, self.g = E[keep, :-1], -E[keep, -1]
        self.p0 = self.V[0]

    def rank(self):
        return self._r

    def well_conditioned(self):
        """No two facets that nearly coincide, no sliver."""
        if self._r <= 1:
            return self._r == 0 or float(np.sum(self.g)) > 0.05
        C = self.G @ self.G.T
        np.fill_diagonal(C, -1)
        q0 = (self.c - self.p0) @ self.B
        return float(C.max()) < 0.999 and float(np.min(self.g - self.G @ q0)) > 0.02

    def viol(self, P):
        D = P - self.p0
        off = np.linalg.norm(D @ self.N, axis=1) if self.N.shape[1] else np.zeros(len(P))
        if self._r == 0:
            return np.full(len(P), -np.inf), off
        return np.max(D @ self.B @ self.G.T - self.g, axis=1), off

    def support(self, U):
        return np.max(U @ self.V.T, axis=1)

    def support_point(self, U):
        return self.V[np.argmax(U @ self.V.T, axis=1)]

    def inside(self, rng, n):
        w = rng.exponential(size=(n, len(self.V)))
        return (w / w.sum(axis=1, keepdims=True)) @ self.V

    def boundary(self, rng, n):
        """Points of the relative boundary, by shooting rays from inside."""
        if self._r == 0:
            return np.repeat(self.V[:1], n, axis=0)
        q0 = (self.c - self.p0) @ self.B
        u = _unit(rng.normal(size=(n, self._r)))
        den = u @ self.G.T
        num = self.g - self.G @ q0
        with np.errstate(divide="ignore"):
            t = np.min(np.where(den > 1e-12, num / np.where(den > 1e-12, den, 1), np.inf), axis=1)
        return (q0 + u * t[:, None]) @ self.B.T + self.p0

    def transform(self, R, t):
        return Poly(self.V @ R.T + t)

    def volume(self):
        if self._r < self.dim:
            return 0.0
        if self.dim == 1:
            return float(np.ptp(self.V))
        return float(ConvexHull(self.V).volume)

    def params(self):
        return dict(V=self.V)


class BoxM(Poly):
    kind = "box"

    def __init__(self, h, R=None, c=None):
        h = np.array(h, float)
        d = len(h)
        R = np.eye(d) if R is None else np.array(R, float)
        c = np.zeros(d) if c is None else np.array(c, float)
        self.h, self.R, self.c, self.dim = h, R, c, d
        S = np.array(list(itertools.product([1.0, -1.0], repeat=d)))
        self.V = (S * h) @ R.T + c

    def rank(self):
        return int(np.sum(self.h > 0))

    def viol(self, P):
        q = (P - self.c) @ self.R
        nz = self.h > 0
        off = np.max(np.abs(q[:, ~nz]), axis=1) if np.any(~nz) else np.zeros(len(P))
        if not nz.any():
            return np.full(len(P), -np.inf), off
        return np.max(np.abs(q[:, nz]) - self.h[nz], axis=1), off

    def support(self, U):
        return U @ self.c + np.abs(U @ self.R) @ self.h

    def support_point(self, U):
        return (np.sign(U @ self.R) * self.h) @ self.R.T + self.c

    def inside(self, rng, n):
        return (rng.uniform(-1, 1, size=(n, self.dim)) * self.h) @ self.R.T + self.c

    def boundary(self, rng, n):
        q = rng.uniform(-1, 1, size=(n, self.dim))
        nz = np.nonzero(self.h > 0)[0]
        if len(nz):
            ax = nz[rng.integers(len(nz), size=n)]
            q[np.arange(n), ax] = rng.choice([-1.0, 1.0], size=n)
        return (q * self.h) @ self.R.T + self.c

    def transform(self, R, t):
        return BoxM(self.h, R @ self.R, R @ self.c + t)

    def volume(self):
        return float(np.prod(2 * self.h))

    def params(self):
        return dict(h=self.h, R=self.R, c=self.c)


class Cyl(Model):
    kind = "cylinder"

    def __init__(self, L, r, R=None, c=None):
        self.L, self.r = float(L), float(r)
        self.dim = 3
        self.R = np.eye(3) if R is None else np.array(R, float)
        self.c = np.zeros(3) if c is None else np.array(c, float)

    def rank(self):
        return (self.L > 0) + 2 * (self.r > 0)

    def viol(self, P):
        q = (P - self.c) @ self.R
        a = np.abs(q[:, 2]) - self.L / 2
        b = np.hypot(q[:, 0], q[:, 1]) - self.r
        off = np.zeros(len(P))
        g = np.full(len(P), -np.inf)
        if self.L > 0:
            g = np.maximum(g, a)
        else:
            off = np.maximum(off, np.abs(q[:, 2]))
        if self.r > 0:
            g = np.maximum(g, b)
        else:
            off = np.maximum(off, np.hypot(q[:, 0], q[:, 1]))
        return g, off

    def support(self, U):
        w = U @ self.R
        return U @ self.c + np.abs(w[:, 2]) * self.L / 2 + self.r * np.hypot(w[:, 0], w[:, 1])

    def support_point(self, U):
        w = U @ self.R
        n = np.hypot(w[:, 0], w[:, 1])
        n[n == 0] = 1
        q = np.stack([self.r * w[:, 0] / n, self.r * w[:, 1] / n, np.sign(w[:, 2]) * self.L / 2], axis=1)
        return q @ self.R.T + self.c

    def inside(self, rng, n):
        th = rng.uniform(0, 2 * np.pi, n)
        rr = self.r * np.sqrt(rng.random(n))
        q = np.stack([rr * np.cos(th), rr * np.sin(th), rng.uniform(-0.5, 0.5, n) * self.L], axis=1)
        return q @ self.R.T + self.c

    def boundary(self, rng, n):
        th = rng.uniform(0, 2 * np.pi, n)
        z = rng.uniform(-0.5, 0.5, n) * self.L
        rr = np.full(n, self.r)
        k = rng.random(n) < 0.5
        if self.r == 0:
            k[:] = True
        elif self.L == 0:
            k[:] = False
        z[k] = np.sign(z[k]) * self.L / 2
        rr[k] = self.r * np.sqrt(rng.random(k.sum()))
        q = np.stack([rr * np.cos(th), rr * np.sin(th), z], axis=1)
        return q @ self.R.T + self.c

    def transform(self, R, t):
        return Cyl(self.L, self.r, R @ self.R, R @ self.c + t)

    def volume(self):
        return math.pi * self.r**2 * self.L

    def params(self):
        return dict(L=self.L, r=self.r, R=self.R, c=self.c)


class Cap(Model):
    kind = "capsule"

    def __init__(self, L, r, R=None, c=None):
        self.L, self.r = float(L), float(r)
        self.dim = 3
        self.R = np.eye(3) if R is None else np.array(R, float)
        self.c = np.zeros(3) if c is None else np.array(c, float)

    def rank(self):
        return 3 if self.r > 0 else int(self.L > 0)

    def viol(self, P):
        q = (P - self.c) @ self.R
        if self.r == 0:
            off = np.hypot(q[:, 0], q[:, 1])
            if self.L == 0:
                return np.full(len(P), -np.inf), np.linalg.norm(q, axis=1)
            return np.abs(q[:, 2]) - self.L / 2, off
        z = np.clip(q[:, 2], -self.L / 2, self.L / 2)
        d = np.sqrt(q[:, 0] ** 2 + q[:, 1] ** 2 + (q[:, 2] - z) ** 2)
        return d - self.r, np.zeros(len(P))

    def support(self, U):
        w = U @ self.R
        return U @ self.c + np.abs(w[:, 2]) * self.L / 2 + self.r * np.linalg.norm(U, axis=1)

    def support_point(self, U):
        w = U @ self.R
        n = np.linalg.norm(w, axis=1, keepdims=True)
        n[n == 0] = 1
        q = self.r * w / n
        q[:, 2] += np.sign(w[:, 2]) * self.L / 2
        return q @ self.R.T + self.c

    def _local(self, rng, n, surf):
        w = _unit(rng.normal(size=(n, 3))) * self.r
        if not surf:
            w *= rng.random((n, 1)) ** (1 / 3)
        z = rng.uniform(-0.5, 0.5, n) * self.L
        if surf:
            # lateral points use a horizontal offset, cap points stay outward
            lat = rng.random(n) < 0.5
            if self.r > 0:
                w[lat, 2] = 0
                nn = np.hypot(w[lat, 0], w[lat, 1])
                w[lat, :2] *= (self.r / nn)[:, None]
            z[~lat] = np.where(w[~lat, 2] >= 0, 1, -1) * self.L / 2
            if self.r == 0:
                z = np.where(z >= 0, 1, -1) * self.L / 2
        q = w.copy()
        q[:, 2] += z
        return q

    def inside(self, rng, n):
        return self._local(rng, n, False) @ self.R.T + self.c

    def boundary(self, rng, n):
        return self._local(rng, n, True) @ self.R.T + self.c

    def transform(self, R, t):
        return Cap(self.L, self.r, R @ self.R, R @ self.c + t)

    def volume(self):
        return math.pi * self.r**2 * self.L + 4 / 3 * math.pi * self.r**3

    def params(self):
        return dict(L=self.L, r=self.r, R=self.R, c=self.c)


# -- polyhedral algebra ----------------------------------------------------------


def lp(c, A_ub=None, b_ub=None, A_eq=None, b_eq=None, bounds=(None, None)):
    kw = dict(A_ub=A_ub, b_ub=b_ub, A_eq=A_eq, b_eq=b_eq, bounds=bounds, method="highs")
    r = linprog(c, **kw)
    if r.status in (2, 4):
        # HiGHS' presolve reports some unbounded problems as infeasible
        r = linprog(c, options=dict(presolve=False), **kw)
    return r


def in_hull(V, p, rays=None):
    """Distance-like residual of writing p as a convex (+conic) combination."""
    V = np.zeros((0, len(p))) if V is None else np.atleast_2d(V)
    n = len(V)
    G = V if rays is None else np.vstack((V, rays)) if n else np.array(rays)
    # minimize the l1 residual
    d = len(p)
    m = len(G)
    ones = np.concatenate((np.ones(n), np.zeros(m - n)))
    A_eq = np.block([[G.T, np.eye(d), -np.eye(d)], [ones[None, :], np.zeros((1, 2 * d))]])
    if n == 0:
        A_eq = A_eq[:-1]
        b_eq = np.array(p)
    else:
        b_eq = np.append(p, 1.0)
    r = lp(np.concatenate((np.zeros(m), np.ones(2 * d))), A_eq=A_eq, b_eq=b_eq, bounds=(0, None))
    return r.fun if r.status == 0 else np.inf


def extreme_margin(V, i):
    """How far V[i] can be strictly separated from the other points
    (<= 0: not extreme)."""
    d = V.shape[1]
    W = np.delete(V, i, axis=0)
    if len(W) == 0:
        return np.inf
    # max s: u.(v - w) >= s, -1<=u<=1
    A = np.hstack((-(V[i] - W), np.ones((len(W), 1))))
    r = lp(np.append(np.zeros(d), -1.0), A_ub=A, b_ub=np.zeros(len(W)),
           bounds=[(-1, 1)] * d + [(None, None)])
    return -r.fun if r.status == 0 else -np.inf


def rows_match(A, B, tol):
    """Are the rows of A and B equal as multisets (well-separated rows)?"""
    A, B = np.atleast_2d(A), np.atleast_2d(B)
    if A.shape != B.shape:
        return False
    D = np.max(np.abs(A[:, None, :] - B[None, :, :]), axis=2) <= tol
    used = np.zeros(len(B), bool)
    for i in range(len(A)):
        k = np.nonzero(D[i] & ~used)[0]
        if len(k) == 0:
            return False
        used[k[0]] = True
    return True


# -- extremal ellipsoids -----------------------------------------------------------


def unit_ball_volume(d):
    return math.pi ** (d / 2) / math.gamma(d / 2 + 1)


def mvee_lower_bound(P, iters=4000, gap=1e-5, full=False):
    """A certified lower bound on the volume of any ellipsoid that contains the
    rows of P (weak duality; Wolfe-Atwood ascent on the D-optimal design)."""
    P = np.atleast_2d(P)
    n, d = P.shape
    Q = np.hstack((P, np.ones((n, 1))))
    u = np.ones(n) / n
    for _ in range(iters):
        X = (Q * u[:, None]).T @ Q
        try:
            M = np.einsum("ij,ij->i", Q @ np.linalg.inv(X), Q)
        except np.linalg.LinAlgError:
            return (0.0, None, None) if full else 0.0
        jp = int(np.argmax(M))
        act = np.nonzero(u > 1e-14)[0]
        jm = act[np.argmin(M[act])]
        ep = M[jp] / (d + 1) - 1
        em = 1 - M[jm] / (d + 1)
        if max(ep, em) < gap:
            break
        if ep >= em:
            j = jp
            b = (M[j] - (d + 1)) / ((d + 1) * (M[j] - 1))
        else:
            j = jm
            b = (M[j] - (d + 1)) / ((d + 1) * (M[j] - 1))
            b = max(b, -u[j] / (1 - u[j])) if u[j] < 1 else 0.0
            if M[j] <= 1:
                b = -u[j] / (1 - u[j])
        u = (1 - b) * u
        u[j] += b
        u = np.maximum(u, 0)
        u /= u.sum()
    c = u @ P
    W = (P * u[:, None]).T @ P - np.outer(c, c)
    det = np.linalg.det(d * W)
    v = unit_ball_volume(d) * math.sqrt(max(det, 0.0))
    return (v, d * W, c) if full else v


def mvee_lower_bound_of(models, X, rounds=6, rng=None, target=None):
    """The same bound for a union of convex models: cutting planes, adding the
    points of the models that stick out of the current ellipsoid the most."""
    best = 0.0
    for _ in range(rounds):
        v, E, c = mvee_lower_bound(X, iters=20000, gap=1e-6, full=True)
        best = max(best, v)
        if E is None or (target is not None and best >= target):
            break
        try:
            A = np.linalg.inv(np.linalg.cholesky(E))
        except np.linalg.LinAlgError:
            break
        new = [X]
        for m in models:
            Y = maximize_over(m, A, -A @ c, m.boundary(rng, 30), iters=300)
            new.append(Y)
        X = np.vstack(new)
        X = X[np.unique(np.round(X, 7), axis=0, return_index=True)[1]]
    return best


def min_sphere(P):
    """Exact minimum enclosing ball by move-to-front Welzl."""
    P = [np.array(p, float) for p in P]
    d = len(P[0])

    def ball(R):
        if not R:
            return None
        c0 = R[0]
        A = np.array([r - c0 for r in R[1:]])
        if len(A) == 0:
            return c0, 0.0
        x = np.linalg.lstsq(2 * A, np.sum(A**2, axis=1), rcond=None)[0]
        # minimum-norm solution lies in the affine hull of R
        return c0 + x, float(np.linalg.norm(x))

    def rec(n, R):
        b = ball(R)
        if len(R) == d + 1:
            return b
        i = 0
        while i < n:
            p = P[i]
            if b is None or np.linalg.norm(p - b[0]) > b[1] * (1 + 1e-10) + 1e-12:
                b = rec(i, R + [p])
                P.insert(0, P.pop(i))
            i += 1
        return b

    return rec(len(P), [])


def chebyshev(A, b):
    """Largest inscribed ball of {x: A x <= b} by linear programming."""
    n = np.linalg.norm(A, axis=1)
    d = A.shape[1]
    r = lp(np.append(np.zeros(d), -1.0), A_ub=np.hstack((A, n[:, None])), b_ub=b,
           bounds=[(None, None)] * d + [(0, None)])
    return (r.x[:d], r.x[d]) if r.status == 0 else None


def mie_upper_bound(A, b, B, c):
    """A certified upper bound on log det of any ellipsoid {B u + c} inside
    {A x <= b}, from multipliers fitted at the candidate (B, c)."""
    d = A.shape[1]
    nrm = np.linalg.norm(A, axis=1)
    A, b = A / nrm[:, None], b / nrm
    B = 0.5 * (B + B.T)
    W = _unit(A @ B)
    Binv = np.linalg.inv(B)
    s = float(np.mean(np.linalg.eigvalsh(B)))
    cols, rhs = [], np.concatenate((s * Binv[np.triu_indices(d)], np.zeros(d)))
    for a, w in zip(A, W):
        S = 0.5 * (np.outer(a, w) + np.outer(w, a)) * s
        cols.append(np.concatenate((S[np.triu_indices(d)], a * s)))
    # only (nearly) active constraints carry multipliers
    slack = b - A @ c - np.linalg.norm(A @ B, axis=1)
    act = slack <= 2e-3 * s
    M = np.array(cols).T
    if not act.any():
        return np.inf
    lam = np.zeros(len(b))
    x, _ = nnls(M[:, act], rhs)
    lam[act] = x
    # remove the residual of sum(lam a) = 0 exactly by a tiny LP-free shift:
    # project the stationarity residual onto bounding-box multipliers
    res = A.T @ lam
    G = sum(l * 0.5 * (np.outer(a, w) + np.outer(w, a)) for l, a, w in zip(lam, A, W))
    ev = np.linalg.eigvalsh(G)
    if ev[0] <= 0:
        return np.inf
    # |x - c| is at most the diameter for any feasible center
    diam = 4 * max(float(np.max(np.abs(b - A @ c))), 1e-9)
    return float(-np.sum(np.log(ev)) - d + lam @ (b - A @ c) + np.linalg.norm(res) * diam)


def maximize_over(model, A, b, x0, iters=60):
    """Ascend |A x + b| over a convex model from the rows of x0
    (a convex function: linearize and jump to the support point)."""
    X = x0
    for _ in range(iters):
        g = (X @ A.T + b) @ A
        bad = np.linalg.norm(g, axis=1) < 1e-14
        g[bad] = 1.0
        X = model.support_point(g)
    return X


# -- is floating-point double description usable on this input? --------------------


def dd_fragile(mats, sup, dirs, rng, tol=1e-6, perms=2):
    """Does raw cdd (not the library under test) get the support of the set
    {A x <= b} wrong for any of the given row systems or a reordering of them?
    Then the input is beyond floating-point double description."""
    import cdd

    want = [sup(u) for u in dirs]
    # as given, and in units of about the size of the right-hand side
    sc = [2.0 ** np.round(np.log2(max(np.abs(b).max(), 1e-12))) for _, b in mats]
    for s, (A, b) in [(1.0, m) for m in mats] + list(zip(sc, mats)):
        b = b / s
        for k in range(perms + 1):
            p = np.arange(len(b)) if k == 0 else rng.permutation(len(b))
            m = cdd.Matrix(np.hstack((b[p, None], -A[p])))
            m.rep_type = cdd.RepType.INEQUALITY
            try:
                g = cdd.Polyhedron(m).get_generators()
            except RuntimeError:
                return True
            G = np.array([g[i] for i in range(g.row_size)])
            empty = len(G) == 0
            if empty != (want[0] is None):
                return True
            if empty:
                continue
            if np.any(G[:, 0] == 0):
                return True
            for u, w in zip(dirs, want):
                if abs(s * np.max(G[:, 1:] @ u) - w) > tol * max(1, abs(w)):
                    return True
    return False


def min_sphere_lower_bound(models, rng, rounds=8):
    """Radius no sphere around the models can beat (cutting planes)."""
    X = np.vstack([m.support_point(np.vstack((np.eye(m.dim), -np.eye(m.dim)))) for m in models])
    r = 0.0
    for _ in range(rounds):
        c, r = min_sphere(X)
        new = []
        for m in models:
            Y = maximize_over(m, np.eye(m.dim), -c, np.vstack((m.boundary(rng, 40), X)), iters=300)
            new.append(Y[[np.argmax(np.linalg.norm(Y - c, axis=1))]])
        new = np.vstack(new)
        if np.max(np.linalg.norm(new - c, axis=1)) <= r * (1 + 1e-7):
            break
        X = np.vstack((X, new))
    return r


def min_distance(m1, m2, iters=400, gap=1e-9):
    """Distance of two convex models with certified bounds (Wolfe's minimum
    norm point on the Minkowski difference): (lower, upper, direction)."""
    x = (m1.c - m2.c).astype(float)
    if np.linalg.norm(x) < 1e-12:
        x = np.array([1.0] + [0.0] * (m1.dim - 1))

    def sup(g):  # support point of m1 - m2 in direction -g
        return m1.support_point(-g[None])[0] - m2.support_point(g[None])[0]

    W = sup(x)[None]
    best, bu = -np.inf, x
    S = max(m1.size(), m2.size())
    up = np.inf
    for _ in range(iters):
        B = 1e4 * S
        A = np.vstack((W.T, B * np.ones((1, len(W)))))
        try:
            lam, _ = nnls(A, np.append(np.zeros(m1.dim), B), maxiter=300)
        except RuntimeError:
            break
        if lam.sum() <= 0:
            break
        lam /= lam.sum()
        x = lam @ W
        n = np.linalg.norm(x)
        up = min(up, n)
        if n <= gap * S:
            return max(best, 0.0), n, x
        w = sup(x)
        lb = (x @ w) / n
        if lb > best:
            best, bu = lb, x / n
        if n - best <= gap * S:
            break
        W = np.vstack((W[lam > 1e-14], w))
        if len(W) > 40:
            W = W[-40:]
    return max(best, 0.0), up, bu
