import numpy as np
import cvxpy as cp
import rigeo as rg
from .. import gen, model as M, realize
from ..core import Prop

P = Prop(
    "C31",
    rule="one case = one pair of full-dimensional ellipsoids in 1-5 dimensions (nested, touching within 1e-2, overlapping, disjoint, "
    "concentric, equal orientation) and rigid motions of the pair; non-trivial if an answer was judged",
    technique="runtime monitoring: answers compared with the exact maximum of the outer ellipsoid's normalized distance over the inner "
    "one (trust-region dual), and across rigid motions of both",
    note="pairs whose normalized maximum is at least 0.005 away from tangency",
    assumptions=["full-dimensional ellipsoids with aspect ratio up to about 20"],
)


def reach(m1, m2):
    """max over x in m2 of the normalized distance from m1's center."""
    W = np.diag(1 / m1.h) @ m1.R.T
    B = W @ (m2.R * m2.h)
    t = W @ (m2.c - m1.c)
    return float(np.sqrt(max(0.0, t @ t + realize.max_quadratic_ball(B.T @ B, B.T @ t))))


def shape(rng, d):
    while True:
        lib, m = gen.ellipsoid(rng, d, flat=False, big=False)
        if m.h.min() > 0.1:
            return lib, m


def ask(c, l1, l2, solver):
    return bool(c.call(l1.contains_ellipsoid, l2, solver=solver) if solver else c.call(l1.contains_ellipsoid, l2))


@P.group(quick=1200, thorough=24000, cpu=120)
def pairs(c, rng, i):
    d = int(rng.choice([1, 2, 3, 3, 3, 4, 5]))
    l1, m1 = shape(rng, d)
    l2, m2 = shape(rng, d)
    k = i % 6
    if k == 0:  # concentric
        m2 = M.Ell(m2.h, m2.R, m1.c)
    elif k == 1:  # same orientation
        m2 = M.Ell(m2.h, m1.R, m2.c)
    elif k == 2:  # similar copy, shifted
        m2 = M.Ell(m1.h * rng.uniform(0.2, 0.9), m1.R, m1.c + rng.normal(size=d) * 0.2)
    if k != 5:
        # scale the second about its center to a chosen reach, if it can be
        target = float(rng.choice([0.5, 0.9, 0.97, 0.99, 1.01, 1.03, 1.1, 1.5]))
        t = np.linalg.norm((m1.R.T @ (m2.c - m1.c)) / m1.h)
        if t > 0.9 * target:
            m2 = M.Ell(m2.h, m2.R, m1.c + (m2.c - m1.c) * rng.uniform(0.1, 0.8) * target / t)
        lo, hi = 0.0, 50.0
        for _ in range(40):
            mid = (lo + hi) / 2
            lo, hi = (mid, hi) if reach(m1, M.Ell(m2.h * mid, m2.R, m2.c)) < target else (lo, mid)
        m2 = M.Ell(m2.h * lo, m2.R, m2.c)
    g = reach(m1, m2)
    if m2.h.min() < 0.02 or m2.h.max() / m2.h.min() > 40 or abs(g - 1) < 5e-3:
        return
    u = gen.length_unit(rng, -2, 2)
    m1, m2 = M.Ell(m1.h * u, m1.R, m1.c * u), M.Ell(m2.h * u, m2.R, m2.c * u)
    l1 = rg.Ellipsoid(m1.h, rotation=m1.R, center=m1.c)
    l2 = rg.Ellipsoid(m2.h, rotation=m2.R, center=m2.c)
    solver = cp.CLARABEL if rng.random() < 0.7 else None
    c.say(d=d, h1=m1.h, R1=m1.R, c1=m1.c, h2=m2.h, R2=m2.R, c2=m2.c, reach=g)
    c.check(ask(c, l1, l2, solver) == (g < 1), "contained iff every point is inside", reach=g, h1=m1.h, R1=m1.R, c1=m1.c, h2=m2.h, R2=m2.R, c2=m2.c)
    # sampled points agree with the reference (the monitor's own sanity)
    X = m2.boundary(rng, 200)
    v = np.linalg.norm(((X - m1.c) @ m1.R) / m1.h, axis=1).max()
    assert v <= g + 1e-6
    # both moved together
    R, t = gen.rot(rng, d) if d > 1 else np.eye(1), rng.normal(size=d) * u
    a, b = l1.transform(rotation=R, translation=t), l2.transform(rotation=R, translation=t)
    c.check(ask(c, a, b, solver) == (g < 1), "unaffected by moving both", reach=g, R=R, t=t)


@P.group(quick=500, thorough=10000, cpu=120)
def copies(c, rng, i):
    d = int(rng.choice([1, 2, 3, 4, 5]))
    lib, m = shape(rng, d)
    f = float(rng.choice([0.3, 0.8, 0.99]))
    small = rg.Ellipsoid(m.h * f, rotation=m.R, center=m.c)
    c.say(d=d, h=m.h, f=f)
    c.check(ask(c, lib, small, cp.CLARABEL), "contains its shrunken copies", f=f, h=m.h, center=m.c)
    c.check(not ask(c, small, lib, cp.CLARABEL), "does not contain its enlarged copies", f=f, h=m.h, center=m.c)
    # one axis longer is enough to escape
    h = m.h * 0.8
    h[rng.integers(d)] = m.h.max() * 1.2
    big = rg.Ellipsoid(h, rotation=m.R, center=m.c)
    if reach(m, M.Ell(h, m.R, m.c)) > 1.02:
        c.check(not ask(c, lib, big, cp.CLARABEL), "one longer axis is not contained", h=m.h, h2=h)
    far = rg.Ellipsoid(m.h * f, rotation=m.R, center=m.c + 3 * m.h.max() * np.eye(d)[0])
    c.check(not ask(c, lib, far, cp.CLARABEL), "disjoint ellipsoids are not contained", h=m.h)


@P.group(quick=300, thorough=6000, cpu=120)
def edge(c, rng, i):
    """Small ellipsoids just inside or just outside the edge of a large one."""
    d = int(rng.choice([2, 3, 3, 4]))
    l1, m1 = shape(rng, d)
    u = rng.normal(size=d)
    u /= np.linalg.norm(u)
    n = u / m1.h
    n /= np.linalg.norm(n)
    s = float(rng.choice([0.03, 0.06, 0.1, 0.2])) * m1.h.min() ** 2 / m1.h.max()
    h = s * rng.uniform(0.6, 1, d)
    R = gen.rot(rng, d)
    target = float(rng.choice([0.97, 0.985, 0.99, 1.01, 1.03]))
    at = lambda k: M.Ell(h, R, m1.c + m1.R @ (u * m1.h - k * n))
    lo, hi = -2 * s, 4 * s  # depth of the center below the surface
    for _ in range(50):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if reach(m1, at(mid)) > target else (lo, mid)
    m2 = at(lo)
    g = reach(m1, m2)
    if abs(g - target) > 1e-4 or h.min() < 5e-3:
        return
    c.say(d=d, h1=m1.h, R1=m1.R, c1=m1.c, h2=m2.h, R2=m2.R, c2=m2.c, reach=g)
    got = ask(c, l1, rg.Ellipsoid(m2.h, rotation=m2.R, center=m2.c), cp.CLARABEL)
    c.check(got == (g < 1), "small ones at the edge", reach=g, h1=m1.h, R1=m1.R, c1=m1.c, h2=m2.h, R2=m2.R, c2=m2.c)
