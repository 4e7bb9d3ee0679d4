import numpy as np
import rigeo as rg
from .. import gen, model as M
from ..core import Prop

P = Prop(
    "C01",
    rule="one case = one randomly built shape (kind, size, pose, construction and input form) and one cloud of "
    "probe points (inside, on, and scaled across the boundary, off-plane); non-trivial if the reference set "
    "decides at least one probe",
    technique="runtime monitoring: containment answers compared online with reference point-set models",
    note="every answer is judged by an independent model of the set; probes within 2e-7 (1e-5 for computed faces) "
    "of the boundary are judged only with a wider tolerance",
    assumptions=["half extents are exactly zero or at least 1e-3"],
)


def band(lib, m):
    exact = not (isinstance(m, M.Poly) and not isinstance(m, M.BoxM))
    return (2e-7 if exact else 1e-5) * m.scale()


def probes(rng, m, n=40):
    b = m.boundary(rng, n)
    c = m.c
    out = [m.inside(rng, n // 2)]
    for s in (0.0, 0.3, 0.9, 0.999, 1 - 1e-4, 1 + 1e-4, 1.001, 1.1, 2.0, 10.0):
        out.append(c + s * (b[: n // 4] - c))
        b = np.roll(b, 7, axis=0)
    # off-plane and around
    q = m.inside(rng, n)
    out.append(q + rng.normal(size=q.shape) * 10.0 ** rng.uniform(-4, 1, (n, 1)))
    e = np.zeros_like(q[: n // 2])
    e[np.arange(n // 2), rng.integers(m.dim, size=n // 2)] = rng.choice([-1, 1], n // 2) * rng.choice([1e-3, 0.1, 1.0])
    out.append(q[: n // 2] + e)
    lo, hi = m.bbox()
    out.append(rng.uniform(lo - 0.1, hi + 0.1, (n, m.dim)))
    X = np.vstack(out)
    return X[rng.permutation(len(X))]


def judge(c, lib, m, rng, tol=None):
    X = probes(rng, m)
    kw = {}
    bd = band(lib, m)
    if isinstance(m, M.Poly) and not isinstance(m, M.BoxM):
        # computed faces are not normalized: a tolerance is not a distance
        if m.rank() < m.dim:
            kw, bd = {"tol": 1e-6}, 2e-3 * m.scale()
        else:
            bd = 1e-4 * m.scale()
    elif m.rank() < m.dim:
        kw, bd = {"tol": 1e-6}, 2e-5 * m.scale()
    lab = m.classify(X, bd)
    got = lib.contains(X, **kw)
    got_a = np.asarray(got)
    if not c.check(got_a.shape == (len(X),) and got_a.dtype == bool, "one boolean per point", got=got_a.shape):
        return
    dec = lab != 0
    bad = dec & (got_a != (lab > 0))
    c.seen("inside probes judged", (lab > 0).sum())
    c.seen("outside probes judged", (lab < 0).sum())
    if bad.any():
        i = np.nonzero(bad)[0][0]
        c.fail("containment differs from the point set", p=X[i], got=got_a[i], want=bool(lab[i] > 0), shape=repr(lib)[:300], nbad=int(bad.sum()))
    # batches of every size agree with single queries
    k = rng.choice(len(X), 12, replace=False)
    singles = [lib.contains(X[i], **kw) for i in k]
    ok = all(np.ndim(s) == 0 for s in singles)
    c.check(ok and all(bool(s) == bool(got_a[i]) for s, i in zip(singles, k)), "single query agrees with batch", n=12,
            singles=[str(s) for s in singles], batch=got_a[k], shape=repr(lib)[:300])
    for n in (1, 2, m.dim, m.dim + 1):
        i = rng.choice(len(X), n, replace=False)
        sub = np.asarray(lib.contains(X[i], **kw))
        c.check(sub.shape == (n,) and np.array_equal(sub, got_a[i]), "small batch agrees with large batch", n=n, idx=i)
    i = k[:5]
    c.check(np.array_equal(np.asarray(lib.contains(X[i].tolist(), **kw)), got_a[i]), "list input agrees with array input")
    # points of the boundary itself belong to the (closed) set
    B = m.boundary(rng, 30)
    okb = np.asarray(lib.contains(B, tol=1e-6))
    c.check(okb.all(), "boundary points are contained (closed set)", n=len(B), p=B[~okb][:2], shape=repr(lib)[:300])


@P.group(quick=400, thorough=12000)
def solid(c, rng, i):
    lib, m = gen.any_shape(rng, flat=False, big=True, size=gen.length_unit(rng, -3, 5))
    c.say(kind=m.kind, model=m.params())
    judge(c, lib, m, rng)


@P.group(quick=240, thorough=6000)
def flat(c, rng, i):
    lib, m = gen.any_shape(rng, flat=True, big=False)
    c.say(kind=m.kind, model=m.params())
    judge(c, lib, m, rng)


@P.group(quick=240, thorough=6000)
def dimensions(c, rng, i):
    d = int(rng.choice([1, 2, 4, 5]))
    fl = rng.random() < 0.3 and d > 1
    lib, m = gen.ellipsoid(rng, d, fl, big=False) if rng.random() < 0.5 else gen.poly(rng, d, fl)
    c.say(kind=m.kind, d=d, model=m.params())
    c.check(lib.dim == d, "dimension", got=lib.dim)
    judge(c, lib, m, rng)


@P.group(quick=120, thorough=3000)
def sizes(c, rng, i):
    """Very small and very large shapes: the answer scales with the shape."""
    s = 10.0 ** rng.choice([-2, -1, 1, 2, 3])
    k = rng.choice(["box", "ellipsoid", "cylinder", "capsule"])
    _, m = gen.any_shape(rng, flat=False, kinds=(k,))
    if k in ("box", "ellipsoid"):
        m = type(m)(m.h * s, m.R, m.c * s)
    else:
        m = type(m)(m.L * s, m.r * s, m.R, m.c * s)
    lib = gen.lib_from_model(m)
    c.say(kind=m.kind, model=m.params())
    X = m.c + (m.boundary(rng, 60) - m.c) * rng.choice([0.5, 0.99, 0.999, 1.001, 1.01, 2], (60, 1))
    lab = m.classify(X, 1e-6 * s)
    got = np.asarray(lib.contains(X))
    dec = lab != 0
    c.check(np.array_equal(got[dec], lab[dec] > 0), "containment at any size", n=int(dec.sum()))


@P.group(quick=200, thorough=5000)
def tolerance(c, rng, i):
    """A larger tolerance never rejects; a given tolerance has its size."""
    k = rng.choice(["box", "ellipsoid", "cylinder", "capsule", "halfspaces"])
    R, t = gen.rot(rng), rng.uniform(-1, 1, 3)
    h = rng.uniform(0.7, 1.3, 3)
    if k == "box":
        m = M.BoxM(h, R, t)
    elif k == "ellipsoid":
        m = M.Ell(h, R, t)
    elif k == "cylinder":
        m = M.Cyl(2 * h[0], h[1], R, t)
    elif k == "capsule":
        m = M.Cap(2 * h[0], h[1], R, t)
    else:
        m = M.BoxM(h, R, t)
    lib = gen.lib_from_model(m)
    if k == "halfspaces":
        A = np.vstack((R.T, -R.T))
        b = np.concatenate((R.T @ t + h, -R.T @ t + h))
        lib = rg.ConvexPolyhedron.from_halfspaces(A, b)
    c.say(kind=k, model=m.params())
    X = probes(rng, m)
    prev = None
    for tol in (0, 1e-12, 1e-8, 1e-4, 1e-2, 0.1, 1.0):
        g = np.asarray(lib.contains(X, tol=tol))
        if prev is not None:
            c.check(not np.any(prev & ~g), "larger tolerance never rejects", n=len(X), tol=tol)
        prev = g
    tol = float(rng.choice([1e-6, 1e-4, 1e-2]))
    # outward by much less / much more than the tolerance (sizes near one).
    # radial factor about the center; capsules are judged on their caps too
    b = m.boundary(rng, 60)
    near = m.c + (1 + tol / 8) * (b - m.c)
    c.check(np.asarray(lib.contains(near, tol=tol)).all(), "points well within the tolerance are accepted", n=60, tol=tol, kind=k, model=m.params())
    far = b + 40 * tol * (b - m.c)
    g, off = m.viol(far)
    dec = np.maximum(g, off) > 10 * tol
    gotf = np.asarray(lib.contains(far, tol=tol))
    c.check(not gotf[dec].any(), "points well beyond the tolerance are rejected", n=int(dec.sum()), tol=tol, kind=k, model=m.params())
    # strictly inside is inside even with zero tolerance
    ins = m.c + 0.999 * (b - m.c)
    c.check(np.asarray(lib.contains(ins, tol=0)).all(), "interior points need no tolerance", n=60, kind=k)


@P.group(quick=120, thorough=3000)
def flat_tolerance(c, rng, i):
    """The tolerance also governs the distance from a flat shape's plane."""
    d = 3
    k = rng.choice(["ellipsoid", "box", "disk", "segment"])
    R, t = gen.rot(rng), rng.uniform(-1, 1, 3)
    h = rng.uniform(0.7, 1.3, 3)
    ax = int(rng.integers(3))
    tol = float(rng.choice([1e-6, 1e-4, 1e-2]))
    if k in ("ellipsoid", "box"):
        h[ax] = 0
        m = (M.Ell if k == "ellipsoid" else M.BoxM)(h, R, t)
    elif k == "disk":
        m, ax = M.Cyl(0, h[0], R, t), 2
    else:
        m, ax = M.Cyl(2 * h[0], 0, R, t), int(rng.integers(2))
    lib = gen.lib_from_model(m)
    c.say(kind=k, tol=tol, model=m.params())
    X = m.c + 0.9 * (m.inside(rng, 20) - m.c)
    n = R[:, ax]
    c.check(np.asarray(lib.contains(X + 0.3 * tol * n, tol=tol)).all(), "off-plane within tolerance accepted", n=20, kind=k, tol=tol)
    c.check(not np.asarray(lib.contains(X + 4 * tol * n, tol=tol)).any(), "off-plane beyond tolerance rejected", n=20, kind=k, tol=tol)
    c.check(not np.asarray(lib.contains(X - 4 * tol * n, tol=tol)).any(), "off-plane beyond tolerance rejected", n=20, kind=k, tol=tol)
    c.check(not np.asarray(lib.contains(X + 1e-5 * n)).any(), "off-plane rejected at the default tolerance", n=20, kind=k)


@P.group(quick=240, thorough=6000)
def polyhedra(c, rng, i):
    lib, m = gen.any_shape(rng, flat=rng.random() < 0.15, size=gen.length_unit(rng, -2, 4))
    c.say(kind=m.kind, model=m.params())
    n = int(rng.integers(4, 9)) if i % 6 else int(rng.choice([12, 24, 40, 100]))
    if m.rank() == 3:
        V = m.inside(rng, n)
        s = rng.choice([0.5, 0.95, 1.05, 1.5, 0.9])
        b = m.boundary(rng, n)
        V = m.c + s * (b - m.c)
        if rng.random() < 0.5:  # exactly one vertex out
            V = m.c + 0.8 * (b - m.c)
            j = rng.integers(n)
            V[j] = m.c + rng.choice([0.9, 1.2]) * (b[j] - m.c)
    else:
        V = m.c + 0.8 * (m.boundary(rng, n) - m.c)
        if rng.random() < 0.5:
            V[rng.integers(n)] += rng.normal(size=3) * 0.2
    P2 = gen.points(rng, 3)
    if rng.random() < 0.3:
        V = P2
    if len(np.unique(V, axis=0)) < 2:
        V = np.vstack((V, V[0] + [1, 0, 0]))
    try:
        poly = rg.ConvexPolyhedron.from_vertices(V, prune=True)
    except ValueError:
        return
    lab = m.classify(V, 1e-4 * m.scale())
    if (lab == 0).any() and not (lab < 0).any():
        return
    want = bool((lab > 0).all())
    got = lib.contains_polyhedron(poly, tol=1e-6)
    c.check(np.ndim(got) == 0 and bool(got) == want, "polyhedron contained iff all vertices are", got=got, want=want, verts=V, model=m.params())
    # a box is a polyhedron too
    if m.rank() == 3:
        hb = rng.uniform(0.05, 0.6, 3)
        bm = M.BoxM(hb, gen.rot(rng), m.c + rng.normal(size=3) * 0.3)
        lab = m.classify(bm.V, 1e-4 * m.scale())
        if not ((lab == 0).any() and not (lab < 0).any()):
            got = lib.contains_polyhedron(gen.lib_from_model(bm))
            c.check(bool(got) == bool((lab > 0).all()), "box contained iff all vertices are", got=got, model=m.params())


@P.group(quick=60, thorough=800)
def many_vertices(c, rng, i):
    """Polyhedra of many vertices, of which exactly one may stick out, anywhere in the order."""
    lib, m = gen.any_shape(rng, flat=False)
    n = int(rng.choice([10, 18, 27, 40, 90, 200]))
    u = rng.normal(size=(n, 3))
    u /= np.linalg.norm(u, axis=1)[:, None]
    c0 = m.c if m.classify(m.c[None], 1e-6 * m.scale())[0] > 0 else m.inside(rng, 1)[0]
    r = 1e-2 * m.scale()
    while r > 1e-9 and not (m.classify(c0 + r * u, 1e-6 * m.scale()) > 0).all():
        r /= 2
    V = c0 + r * u
    j = int(rng.integers(n)) if i % 4 else n - 1
    out = i % 3 != 0
    if out:
        V[j] = c0 + 3 * (np.max(m.bbox()[1] - m.bbox()[0])) * u[j]
    lab = m.classify(V, 1e-6 * m.scale())
    if (lab == 0).any() or (lab > 0).sum() != n - out:
        return
    c.say(kind=m.kind, model=m.params(), n=n, j=j, out=out)
    try:
        poly = rg.ConvexPolyhedron.from_vertices(V)
    except ValueError:
        return
    got = c.call(lib.contains_polyhedron, poly)
    c.check(np.ndim(got) == 0 and bool(got) == (not out), "one vertex out of many decides", got=got, n=n, j=j, model=m.params())


@P.group(quick=8, thorough=60)
def large_batches(c, rng, i):
    lib, m = gen.any_shape(rng, flat=False)
    c.say(kind=m.kind, model=m.params())
    n = int(rng.choice([1000, 4096, 20000]))
    lo, hi = m.bbox()
    X = rng.uniform(lo - 0.2, hi + 0.2, (n, 3))
    lab = m.classify(X, 1e-5 * m.scale())
    got = np.asarray(lib.contains(X))
    dec = lab != 0
    c.check(got.shape == (n,) and np.array_equal(got[dec], lab[dec] > 0), "large batches", n=int(dec.sum()), kind=m.kind)


@P.group(quick=60, thorough=800)
def large_flat_batches(c, rng, i):
    """Flat shapes, and points on their plane, slightly off and far off it in one query."""
    kind = ["box", "ellipsoid", "cylinder", "capsule"][i % 4]
    lib, m = gen.any_shape(rng, flat=True, kinds=(kind,), big=False)
    if m.rank() == m.dim:
        return
    n = int(rng.choice([100, 600, 3000]))
    c.say(kind=m.kind, model=m.params(), n=n)
    X = m.inside(rng, n)
    z = rng.normal(size=X.shape) * 10.0 ** rng.uniform(-7.5, 2, (n, 1)) * (rng.random((n, 1)) < 0.5)
    X = X + z
    tol = float(rng.choice([1e-8, 1e-7, 1e-5]))
    lab = m.classify(X, 20 * tol * max(1, m.scale()) + 1e-12)
    clear = np.linalg.norm(z, axis=1) == 0  # on the shape itself
    got = np.asarray(c.call(lib.contains, X, tol=max(tol, 1e-8)))
    if not c.check(got.shape == (n,), "one answer per point", got=got.shape):
        return
    bad = ((lab < 0) & got) | (clear & (m.classify(X, 1e-7 * m.scale()) >= 0) & ~got)
    c.seen("points off a flat shape", int((lab < 0).sum()))
    if bad.any():
        j = int(np.nonzero(bad)[0][0])
        c.fail("large batches of points near flat shapes", p=X[j], got=bool(got[j]), label=int(lab[j]), kind=m.kind, model=m.params(), tol=tol)
