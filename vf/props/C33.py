import numpy as np
import rigeo as rg
from .. import gen, model as M
from ..core import Prop

P = Prop(
    "C33",
    rule="one case = two or three positive definite matrices (pseudo-inertia matrices of bodies, or random ones of size 1-8, equal, "
    "proportional, nearly equal or with repeated eigenvalues) and a change of coordinates; non-trivial if a distance was judged",
    technique="runtime monitoring: each returned distance is compared with one computed independently through a Cholesky factor, and "
    "with the metric's laws over related calls (symmetry, identity, triangle inequality, invariance, geodesic additivity)",
    note="1e-7 relative plus 1e-10 times the condition numbers",
    assumptions=[],
)


def spd(rng, n):
    k = rng.choice(["gram", "diag", "rep", "body", "scaled", "id"])
    if k == "body" and n == 4:
        X = rng.normal(size=(8, 3)) * rng.choice([0.1, 1, 3])
        return gen.pim(rng.uniform(0.1, 2, 8), X + rng.normal(size=3))
    Q = gen.rot(rng, n, "rand") if n > 1 else np.eye(1)
    w = 10 ** rng.uniform(-1, 1, n)
    if k == "rep":
        w = rng.choice([0.5, 2.0], n)
    if k == "diag":
        return np.diag(w)
    if k == "id":
        return np.eye(n) * w[0]
    if k == "scaled":
        w = w * 10 ** rng.uniform(-6, 6)
    A = (Q * w) @ Q.T
    return (A + A.T) / 2


def ref(A, B):
    L = np.linalg.cholesky(A)
    C = np.linalg.solve(L, np.linalg.solve(L, B).T)
    w = np.linalg.eigvalsh((C + C.T) / 2)
    return np.sqrt(0.5 * np.sum(np.log(w) ** 2))


def root(A, p):
    w, V = np.linalg.eigh(A)
    return (V * w**p) @ V.T


def ok(c, d, want, tol, tag, **kw):
    real = np.ndim(d) == 0 and not np.iscomplexobj(d)
    c.check(real and np.isfinite(d) and d >= 0, "distance is a non-negative number", got=d, **kw)
    if real:
        c.check(abs(d - want) <= tol, tag, got=d, want=want, tol=tol, **kw)


@P.group(quick=1600, thorough=60000, cpu=60)
def metric(c, rng, i):
    from rigeo.unused.geodesic import positive_definite_distance as dist

    n = int(rng.choice([1, 2, 3, 4, 4, 4, 5, 8]))
    A, B, C = [spd(rng, n) for _ in range(3)]
    k = i % 5
    if k == 1:
        B = A * 10 ** rng.uniform(-3, 3)
    elif k == 2:
        E = rng.normal(size=(n, n))
        B = A + 10 ** rng.uniform(-9, -3) * np.linalg.eigvalsh(A)[0] * (E + E.T)
    elif k == 3:
        B = A.copy()
    if rng.random() < 0.1 and np.all(A == np.round(A)):
        A = A.astype(int)
    c.say(A=A, B=B, C=C, kind=k)
    cond = max(np.linalg.cond(X) for X in (A, B, C))
    t = lambda x: 1e-7 * (1 + x) + 1e-10 * cond
    d = c.call(dist, A, B)
    ok(c, d, ref(A, B), t(d.real), "geodesic distance", A=A, B=B)
    ok(c, c.call(dist, B, A), d, t(d.real), "symmetric in its arguments")
    ok(c, c.call(dist, A, A.copy()), 0.0, t(0), "zero between equal matrices")
    e = c.call(dist, B, C)
    f = c.call(dist, A, C)
    c.check(np.real(f) <= np.real(d) + np.real(e) + t(np.real(d + e)), "triangle inequality", got=(d, e, f))
    T = rng.normal(size=(n, n)) + 2 * np.eye(n)
    if np.linalg.cond(T) < 30:
        ok(c, c.call(dist, T @ A @ T.T, T @ B @ T.T), d, t(d.real) * 100, "unchanged by a change of coordinates")
    if cond < 1e5:
        iA, iB = np.linalg.inv(A), np.linalg.inv(B)
        ok(c, c.call(dist, (iA + iA.T) / 2, (iB + iB.T) / 2), d, t(d.real) * 10, "same between inverses")
    s = 10 ** rng.uniform(-4, 4)
    ok(c, c.call(dist, A, s * A), np.sqrt(n / 2) * abs(np.log(s)), t(10), "distance of a multiple")
    # along the geodesic from A to B distances add up
    u = rng.uniform(0.1, 0.9)
    R, Ri = root(A, 0.5), root(A, -0.5)
    G = R @ root((Ri @ B @ Ri + (Ri @ B @ Ri).T) / 2, u) @ R
    ok(c, c.call(dist, A, (G + G.T) / 2), u * np.real(d), t(d.real) * 10, "proportional along the geodesic")
    X = np.eye(n + 1)
    c.raises((AssertionError, ValueError), dist, A, X, tag="different sizes are refused")


@P.group(quick=400, thorough=12000, cpu=60)
def frames(c, rng, i):
    """The distance between two bodies does not depend on the frame."""
    from rigeo.unused.geodesic import positive_definite_distance as dist

    ps = [rg.InertialParameters.from_point_masses(rng.uniform(0.1, 2, 8), rng.normal(size=(8, 3)) * rng.uniform(0.3, 2, 3)) for _ in range(2)]
    R, t = gen.rot(rng, 3), gen.trans(rng, 3, False)
    c.say(J=[p.J for p in ps], R=R, t=t)
    a = c.call(dist, ps[0].J, ps[1].J)
    q = [p.transform(rotation=R, translation=t) for p in ps]
    ok(c, a, ref(ps[0].J, ps[1].J), 1e-6 * (1 + np.real(a)), "distance between bodies")
    ok(c, c.call(dist, q[0].J, q[1].J), a, 1e-5 * (1 + np.real(a)), "same distance in another frame")
