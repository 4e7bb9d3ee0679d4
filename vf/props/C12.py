import numpy as np
import rigeo as rg
from .. import gen, model as M
from ..core import Prop

P = Prop(
    "C12",
    rule="one case = one box or ellipsoid (any pose and size, flat included, ellipsoids in 1-6 dimensions) with labelled points on, "
    "inside and outside the boundary; non-trivial if labels of all three kinds were judged",
    technique="runtime monitoring: reference signed-distance labels at the real surface test, on boundary, near-boundary, "
    "interior and exterior points, with batch/single and tolerance-monotonicity monitors",
    note="near the tolerance both answers are accepted: a point counts as on the surface within 0.4 tol, off it beyond 2.5 tol "
    "(in distance and in the quadratic form)",
)


def labels(m, X, tol):
    """+1 on the surface for this tolerance, -1 off it, 0 either."""
    if m.kind == "box":
        q = (X - m.c) @ m.R
        s = np.abs(np.max(np.abs(q) - m.h, axis=1))
        lo = hi = s
    else:
        q = (X - m.c) @ m.R
        F = np.sum((q / m.h) ** 2, axis=1)
        a = np.abs(F - 1)
        b = np.abs(np.sqrt(F) - 1)
        lo = np.maximum(a, b * m.h.max())  # largest measure of the offset
        hi = np.minimum(a, b * m.h.min())  # smallest measure of the offset
    eps = 1e-9
    return np.where(lo <= 0.4 * tol + 1e-13, 1, np.where(hi >= 2.5 * tol + eps, -1, 0))


def query(c, lib, X, tol):
    kw = {} if tol is None else dict(tol=tol)
    got = c.call(lib.on_surface, X, **kw)
    c.check(np.shape(got) == (len(X),), "one answer per point", got=np.shape(got), n_points=len(X))
    return np.asarray(got).astype(bool)


def shape(rng, i, flat=False, u=1.0):
    if i % 2 == 0:
        h = gen.extents(rng, 3, flat) * u
        r_arg, c_arg, R, ctr = gen.pose(rng, 3, size=u)
        return rg.Box(gen.form(rng, h), center=c_arg, rotation=r_arg), M.BoxM(h, R, ctr)
    d = int(rng.choice([1, 2, 3, 3, 3, 4, 6]))
    if flat and d == 1:
        d = 2
    h = gen.extents(rng, d, flat) * u
    r_arg, c_arg, R, ctr = gen.pose(rng, d, size=u)
    return rg.Ellipsoid(gen.form(rng, h), center=c_arg, rotation=r_arg), M.Ell(h, R, ctr)


def cloud(rng, m, n=60):
    """Points on, near and far from the boundary."""
    B = m.boundary(rng, n)
    out = [B]
    D = B - m.c
    for s in (1e-6, 1e-4, 1e-2, 0.1, 0.5, 1.0):
        sg = rng.choice([-1.0, 1.0], (n, 1))
        out.append(m.c + D * (1 + s * sg * np.where(sg < 0, 0.999999, 1)))
    out.append(m.inside(rng, n))
    # on the planes of the faces / on the coordinate planes but off the shape
    q = rng.uniform(-2, 2, (n, m.dim)) * np.where(m.h > 0, m.h, 1)
    k = rng.integers(m.dim, size=n)
    q[np.arange(n), k] = m.h[k] * rng.choice([-1, 1], n)
    out.append(q @ m.R.T + m.c)
    # axis points, edges, corners
    E = np.vstack((np.diag(m.h), -np.diag(m.h), np.zeros((1, m.dim))))
    out.append(E @ m.R.T + m.c)
    if m.kind == "box":
        out.append(m.V)
        e = rng.choice([-1.0, 1.0], (n, 3))
        e[np.arange(n), rng.integers(3, size=n)] = rng.uniform(-1, 1, n)
        out.append((e * m.h) @ m.R.T + m.c)
        out.append((1.5 * e * m.h) @ m.R.T + m.c)
    return np.vstack(out)


@P.group(quick=3000, thorough=60000)
def solid(c, rng, i):
    u = gen.length_unit(rng)
    lib, m = shape(rng, i, u=u)
    c.say(kind=m.kind, model=m.params())
    if rng.random() < 0.3:
        t = gen.trans(rng, m.dim) * u
        R = gen.rot(rng, m.dim)
        lib, m = c.call(lib.transform, rotation=R, translation=t), m.transform(R, t)
    X = cloud(rng, m)
    for tol in (None, 1e-8, 1e-5, 1e-3, 0.05):
        got = query(c, lib, X, tol)
        lab = labels(m, X, tol or 1e-8)
        # rounding of far-away coordinates in thin directions
        bad = ((lab == 1) & ~got) | ((lab == -1) & got)
        for v, name in ((1, "points on the surface"), (-1, "points off the surface")):
            c.seen(f"{name}", int(np.sum(lab == v)))
        if bad.any():
            k = int(np.nonzero(bad)[0][0])
            c.fail("surface test", point=X[k], got=bool(got[k]), label=int(lab[k]), tol=tol, kind=m.kind, model=m.params())
        if tol is not None:
            if tol > 1e-8:
                c.check(np.all(got | ~prev), "a larger tolerance accepts all a smaller one does", tol=tol)
            prev = got
    # single queries, lists
    for k in rng.choice(len(X), 6, replace=False):
        s = c.call(lib.on_surface, gen.form(rng, X[k], ints=False))
        c.check(np.ndim(s) == 0 and bool(s) == bool(query(c, lib, X[k][None], None)[0]), "single query agrees with batch", point=X[k])
    c.check(np.array_equal(c.call(lib.on_surface, X.tolist()), query(c, lib, X, None)), "list and array input agree")


@P.group(quick=800, thorough=16000)
def flat(c, rng, i):
    """Every contained point of a flat box or ellipsoid is on its surface."""
    u = gen.length_unit(rng)
    lib, m = shape(rng, i, True, u)
    if m.rank() == m.dim:
        return
    c.say(kind=m.kind, model=m.params())
    I = np.vstack((m.inside(rng, 30), m.boundary(rng, 30)))
    I = np.vstack((m.c + (I - m.c) * 0.999, m.c[None]))
    got = query(c, lib, I, None)
    c.check(got.all(), "points of a flat shape are on its surface", n=len(I), model=m.params(), kind=m.kind)
    z = np.nonzero(m.h <= 1e-8)[0]
    off = I.copy() + np.outer(rng.choice([-1, 1], len(I)) * u * rng.choice([1e-4, 0.1, 1.0], len(I)), m.R[:, rng.choice(z)])
    got = query(c, lib, off, None)
    c.check(not got.any(), "points off the plane of a flat shape are not", n=len(I), model=m.params(), kind=m.kind)
    nz = m.h > 1e-8
    if nz.any():
        out = m.c + (m.boundary(rng, 30) - m.c)
        q = (out - m.c) @ m.R
        w = q * rng.choice([1.001, 1.5, 3.0], (30, 1))
        if m.kind == "box":  # only faces of the nonzero axes are the rim
            ax = rng.choice(np.nonzero(nz)[0], 30)
            w = q.copy()
            w[np.arange(30), ax] = m.h[ax] * rng.choice([1.001, -1.5, 3.0], 30)
        got = query(c, lib, w @ m.R.T + m.c, None)
        c.check(not got.any(), "points outside the rim are not on the surface", n=30, model=m.params(), kind=m.kind)
    X = np.vstack((I, off))
    a = query(c, lib, X, None)
    for k in rng.choice(len(X), 4, replace=False):
        c.check(bool(c.call(lib.on_surface, X[k])) == bool(a[k]), "single query agrees with batch", point=X[k])


@P.group(quick=60, thorough=900)
def large_batches(c, rng, i):
    """Hundreds to thousands of points in one query, judged one by one."""
    lib, m = shape(rng, i, u=gen.length_unit(rng))
    n = int(rng.choice([50, 120, 250, 400]))
    X = cloud(rng, m, n)
    X = X[rng.permutation(len(X))]
    c.say(kind=m.kind, model=m.params(), n=len(X))
    got, lab = query(c, lib, X, None), labels(m, X, 1e-8)
    bad = ((lab == 1) & ~got) | ((lab == -1) & got)
    c.seen("points in large batches", int(np.sum(lab != 0)))
    if bad.any():
        k = int(np.nonzero(bad)[0][0])
        c.fail("surface test of a large batch", point=X[k], got=bool(got[k]), label=int(lab[k]), n=len(X), kind=m.kind, model=m.params())
