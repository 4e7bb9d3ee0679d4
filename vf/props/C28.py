import numpy as np
import rigeo as rg
from .. import gen, model as M
from ..core import Prop

P = Prop(
    "C28",
    rule="one case = one ellipsoid in 1-5 dimensions (repeated semi-axes, spheres, far centers, thin and flat ones) and points on a known "
    "side of its boundary, or one affine map of the unit ball; non-trivial if a representation was judged",
    technique="runtime monitoring: every representation evaluated at points of known position; ellipsoids rebuilt from each representation "
    "compared with the image of the unit ball",
    note="points at relative distance 1e-6 or more from the boundary; matrices to 1e-9 relative to their size",
    assumptions=["the affine representation is |A x + b| <= 1 with symmetric or general invertible A"],
)


def ell(rng, flat=False):
    d = int(rng.integers(1, 6))
    while True:
        lib, m = gen.ellipsoid(rng, d, flat=flat and d > 1, big=rng.random() < 0.3)
        if flat or m.h.min() > 0.03:
            break
    if not flat and rng.random() < 0.4:
        # the same at another size: micrometres to kilometres
        k = float(10.0 ** rng.integers(-4, 5))
        m = M.Ell(m.h * k, m.R, m.c * (k if rng.random() < 0.7 else min(k, 1.0)))
        lib = rg.Ellipsoid(gen.form(rng, m.h), rotation=m.R, center=m.c)
    return d, lib, m


def away(m):
    """Largest coordinate (the size that rounding errors relate to)."""
    return float(m.h.max() + np.abs(m.c).max())


def probes(rng, m, n=24):
    """Points with known normalized distance from the center."""
    d = len(m.c)
    U = rng.normal(size=(n, d))
    U /= np.linalg.norm(U, axis=1, keepdims=True)
    s = rng.choice([0.3, 0.9, 0.999, 1 - 1e-6, 1 + 1e-6, 1.001, 1.2, 4.0], n)
    return m.c + (U * s[:, None] * m.h) @ m.R.T, s


@P.group(quick=4000, thorough=80000)
def representations(c, rng, i):
    d, lib, m = ell(rng)
    X, s = probes(rng, m)
    c.say(d=d, h=m.h, R=m.R, c=m.c)
    D = np.diag(1 / m.h**2)
    cond = (m.h.max() / m.h.min()) ** 2
    S = np.asarray(c.call(lambda: lib.S))
    c.close(S, m.R @ D @ m.R.T, "shape matrix", tol=1e-10, scale=1 / m.h.min() ** 2)
    E = np.asarray(c.call(lambda: lib.E))
    c.close(E, m.R @ np.diag(m.h**2) @ m.R.T, "inverse shape matrix", tol=1e-10, scale=m.h.max() ** 2)
    c.close(S @ E, np.eye(d), "shape matrix times its inverse", tol=1e-9, scale=cond)
    A, b = np.asarray(c.call(lambda: lib.A)), np.asarray(c.call(lambda: lib.b))
    big = (m.h.max() + away(m)) / m.h.min()
    c.close(A.T @ A, m.R @ D @ m.R.T, "affine representation has the shape matrix", tol=1e-9, scale=1 / m.h.min() ** 2)
    Q = np.asarray(c.call(lambda: lib.Q))
    c.check(Q.shape == (d + 1, d + 1) and np.allclose(Q, Q.T, rtol=1e-9, atol=1e-9 * np.abs(Q).max()), "quadratic form is symmetric", got=Q)
    for x, t in zip(X, s):
        # each representation puts the point at its normalized distance
        y = x - m.c
        v = y @ S @ y
        c.close(v, t**2, "shape matrix: normalized distance", tol=1e-8, scale=max(1, t**2) * big)
        v = np.linalg.norm(A @ x + b)
        c.close(v, t, "affine representation: normalized distance", tol=1e-9, scale=max(1, t) * big)
        xh = np.append(x, 1)
        c.close(xh @ Q @ xh, 1 - t**2, "quadratic form: one minus the squared distance", tol=1e-10, scale=max(1, t**2) * big**2)
        z = (np.asarray(lib.rotation).T @ (x - np.asarray(lib.center))) / np.asarray(lib.half_extents)
        c.close(np.linalg.norm(z), t, "half extents, rotation and center: normalized distance", tol=1e-9, scale=max(1, t) * big)
        if abs(t - 1) >= 1e-6:
            c.check(bool(c.call(lib.contains, x)) == (t < 1), "containment agrees", point=x, t=t)
    R = np.asarray(lib.rotation)
    c.close(R @ R.T, np.eye(d), "the rotation is orthogonal", tol=1e-9)


def judge(c, rng, lib, m, what):
    d = len(m.c)
    cond = m.h.max() / m.h.min()
    c.check(lib.dim == d, f"{what}: dimension", got=lib.dim, want=d)
    c.close(np.asarray(lib.E), m.R @ np.diag(m.h**2) @ m.R.T, f"{what}: inverse shape matrix", tol=1e-8, scale=m.h.max() ** 2 * cond)
    c.close(np.asarray(lib.S), m.R @ np.diag(1 / m.h**2) @ m.R.T, f"{what}: shape matrix", tol=1e-8, scale=1 / m.h.min() ** 2)
    c.close(np.asarray(lib.center), m.c, f"{what}: center", tol=1e-8, scale=2 * away(m) * cond)
    c.close(np.sort(np.asarray(lib.half_extents)), np.sort(m.h), f"{what}: half extents", tol=1e-8, scale=m.h.max() * cond)
    c.check(np.all(np.asarray(lib.half_extents) > 0), f"{what}: half extents are positive", got=lib.half_extents)
    vol = M.unit_ball_volume(d) * np.prod(m.h)
    c.close(float(lib.volume), vol, f"{what}: volume", tol=1e-8, scale=vol)
    X, s = probes(rng, m, 16)
    k = np.abs(s - 1) >= 1e-5
    if k.any():
        got = np.asarray(c.call(lib.contains, X[k]))
        c.check(np.array_equal(got, s[k] < 1), f"{what}: containment", n=int(k.sum()), got=got, t=s[k], h=m.h)
    R = np.asarray(lib.rotation)
    c.close(R @ R.T, np.eye(d), f"{what}: orthogonal rotation", tol=1e-9)


@P.group(quick=3000, thorough=60000)
def rebuilt(c, rng, i):
    d, lib, m = ell(rng)
    c.say(d=d, h=m.h, R=m.R, c=m.c)
    S = m.R @ np.diag(1 / m.h**2) @ m.R.T
    S = (S + S.T) / 2
    judge(c, rng, c.call(rg.Ellipsoid.from_shape_matrix, S, center=m.c), m, "from its shape matrix")
    judge(c, rng, c.call(rg.Ellipsoid.from_shape_matrix, lib.S, center=lib.center), m, "from its own shape matrix")
    judge(c, rng, c.call(rg.Ellipsoid.from_affine, lib.A, lib.b), m, "from its own affine representation")
    m0 = M.Ell(m.h, m.R, np.zeros(d))
    judge(c, rng, c.call(rg.Ellipsoid.from_shape_matrix, S), m0, "from its shape matrix, centered")
    # half extents, rotation and center
    judge(c, rng, rg.Ellipsoid(lib.half_extents, rotation=lib.rotation, center=lib.center), m, "from half extents, rotation and center")
    c.check(lib.is_same(rg.Ellipsoid.from_affine(lib.A, lib.b)) or np.abs(m.c).max() > 3 or m.h.max() / m.h.min() > 20 or m.h.min() < 0.03, "rebuilt ellipsoid is the same", h=m.h, center=m.c)


@P.group(quick=4000, thorough=80000)
def affine_maps(c, rng, i):
    """{x: |A x + b| <= 1} for any invertible A: the image of the unit ball
    under x = inv(A) (u - b)."""
    d = int(rng.integers(1, 6))
    while True:
        G = rng.normal(size=(d, d))
        k = i % 4
        if k == 1:
            G = np.triu(G)
        elif k == 2:
            G = G + G.T
        elif k == 3:
            G = np.diag(rng.uniform(0.3, 3, d)) @ gen.rot(rng, d)
        if np.linalg.cond(G) < 25:
            break
    b = rng.normal(size=d) * rng.choice([0, 1, 3])
    u = gen.length_unit(rng, -3, 3)
    G = G / u
    inv = np.linalg.inv(G)
    U, s, Vt = np.linalg.svd(inv)
    m = M.Ell(s, U, inv @ -b)
    c.say(d=d, A=G, b=b)
    lib = c.call(rg.Ellipsoid.from_affine, G, b)
    judge(c, rng, lib, m, "from an affine map")
    W = rng.normal(size=(30, d))
    W /= np.linalg.norm(W, axis=1, keepdims=True)
    Y = (W - b) @ inv.T
    ctr = inv @ -b
    c.check(np.all(c.call(lib.contains, ctr + (1 - 1e-5) * (Y - ctr))), "images of the unit ball are inside", n=30, A=G, b=b)
    c.check(not np.any(c.call(lib.contains, ctr + (1 + 1e-5) * (Y - ctr))), "images of points beyond the unit ball are outside", n=30, A=G, b=b)
    c.check(np.all(c.call(lib.on_surface, Y, tol=1e-5)), "images of the unit sphere are on the surface", n=30, A=G, b=b)


@P.group(quick=1500, thorough=30000)
def flat(c, rng, i):
    """Inverse shape matrix, rank and volume of flat ellipsoids."""
    d, lib, m = ell(rng, True)
    c.say(d=d, h=m.h, R=m.R, c=m.c)
    c.close(np.asarray(c.call(lambda: lib.E)), m.R @ np.diag(m.h**2) @ m.R.T, "flat: inverse shape matrix", tol=1e-10, scale=1e-9 + m.h.max() ** 2)
    r = int(np.sum(m.h > 0))
    c.check(int(lib.rank) == r and bool(lib.is_degenerate()) == (r < d), "flat: rank", got=(lib.rank, lib.is_degenerate()), want=r)
    vol = M.unit_ball_volume(d) * np.prod(m.h)
    c.close(float(lib.volume), vol, "flat: volume", tol=1e-10, scale=max(vol, 1e-300) if vol else 1)


@P.group(quick=800, thorough=15000)
def spheres(c, rng, i):
    d = int(rng.integers(1, 6))
    u = gen.length_unit(rng, -3, 3)
    r, ctr = float(rng.uniform(0.1, 3)) * u, rng.normal(size=d) * 2 * u
    if rng.random() < 0.3 and u == 1:
        r = int(rng.integers(1, 4))
    c.say(d=d, r=r, c=ctr)
    judge(c, rng, c.call(rg.Ellipsoid.sphere, r, center=gen.form(rng, ctr)), M.Ell(np.full(d, float(r)), None, ctr), "sphere")
    judge(c, rng, c.call(rg.Ellipsoid.sphere, r), M.Ell(np.full(3, float(r)), None, np.zeros(3)), "sphere at the origin")
    x = float(rng.uniform(-3, 3)) * u
    judge(c, rng, c.call(rg.Ellipsoid, float(r), center=x), M.Ell([float(r)], None, np.array([x])), "interval")


@P.group(quick=500, thorough=10000)
def refused(c, rng, i):
    d = int(rng.integers(1, 5))
    h = rng.uniform(0.2, 2, d)
    c.say(h=h)
    bad = h.copy()
    bad[rng.integers(d)] = [-0.1, np.inf, np.nan, -np.inf][i % 4]
    E = (AssertionError, ValueError)
    c.raises(E, rg.Ellipsoid, bad, tag="negative or non-finite half extents are refused")
    c.raises(E, rg.Ellipsoid, h, rotation=np.eye(d + 1), tag="rotations of other sizes are refused")
    c.raises(E, rg.Ellipsoid, h, center=np.zeros(d + 1), tag="centers of other sizes are refused")
