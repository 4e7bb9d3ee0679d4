import itertools
import numpy as np
import rigeo as rg
from .. import cddspy, gen, model as M
from ..core import Prop

P = Prop(
    "C16",
    rule="one case = one point set (any kind, flat included) with several different constructions of it and several slightly or "
    "grossly different sets; non-trivial if comparisons in both directions were judged",
    technique="runtime monitoring: comparison answers checked against known equality of point sets over re-parameterizations, "
    "perturbations, foreign shapes, swapped operands and common rigid motions",
    note="differences of at least 1e-2 relative must be noticed; equal sets agree to rounding; in any unit of length from "
    "millimeters to ten kilometers",
)


def signed_perm(rng, d):
    return np.eye(d)[:, rng.permutation(d)] * rng.choice([-1.0, 1.0], d)


def proper(Q):
    if np.linalg.det(Q) < 0:
        Q = Q.copy()
        Q[:, 0] *= -1
    return Q


def unit(rng, lo=-3, hi=4):
    """Unit of length."""
    return 1.0 if rng.random() < 0.6 else float(10.0 ** rng.uniform(lo, hi))


def same(c, a, b, want, tag, **kw):
    det = dict(a=repr(a), b=repr(b), want=want)
    x = c.call(a.is_same, b, **kw)
    y = c.call(b.is_same, a, **kw)
    for v, n in ((x, ""), (y, " (swapped)")):
        c.check(np.ndim(v) == 0 and bool(v) == want, f"{tag}{n}", got=v, **det)


def moved(c, rng, a, b, d, want, tag, lu=1.0, **kw):
    R = gen.rot(rng, d, rng.choice(["perm", "half", "rand", "rand", "small"]))
    t = rng.uniform(-2, 2, d) * lu
    same(c, c.call(a.transform, rotation=R, translation=t), c.call(b.transform, rotation=R, translation=t), want, tag + ", both moved", **kw)


# -- constructions --------------------------------------------------------------


def ell(rng, flat, i):
    d = int(rng.choice([1, 2, 3, 3, 4]))
    h = rng.uniform(0.4, 2, d)
    if i % 3 == 0 and d > 1:
        h[:2] = h[0]
    if i % 7 == 0:
        h[:] = h[0]
    if flat and d > 1:
        h[rng.choice(d, int(rng.integers(1, d)), replace=False)] = 0.0
    return d, h, gen.rot(rng, d, rng.choice(["id", "perm", "half", "rand", "rand"])), rng.uniform(-2, 2, d)


@P.group(quick=1200, thorough=24000)
def ellipsoids(c, rng, i):
    flat = i % 4 == 0
    d, h, R, ctr = ell(rng, flat, i)
    lu = unit(rng)
    h, ctr = h * lu, ctr * lu
    flat = bool(np.any(h == 0))
    c.say(h=h, R=R, ctr=ctr)
    E = lambda h=h, R=R, ctr=ctr: rg.Ellipsoid(h, rotation=R, center=ctr)
    base = E()
    eq = [base, E()]
    for _ in range(2):
        S = signed_perm(rng, d)
        eq.append(rg.Ellipsoid(np.abs(S.T @ h), rotation=R @ S, center=ctr))
    # equal half extents: turn freely within their span
    for v in np.unique(h):
        k = np.nonzero(h == v)[0]
        if len(k) > 1:
            R2 = R.copy()
            R2[:, k] = R[:, k] @ gen.rot(rng, len(k), "rand")
            eq.append(E(R=R2))
    R2, t2 = gen.rot(rng, d, "rand"), rng.uniform(-1, 1, d) * lu
    try_back = base.transform(rotation=R2, translation=t2).transform(rotation=R2.T, translation=-R2.T @ t2)
    eq.append(try_back)
    if np.all(h == h[0]) and not flat:
        eq.append(rg.Ellipsoid.sphere(float(h[0]), center=ctr))
    if not flat:
        eq.append(rg.Ellipsoid.from_shape_matrix(R @ np.diag(1 / h**2) @ R.T, center=ctr))
        Q = gen.rot(rng, d, "rand") @ np.diag(1 / h) @ R.T
        eq.append(rg.Ellipsoid.from_affine(Q, -Q @ ctr))
    for a, b in itertools.combinations(eq, 2):
        same(c, a, b, True, "same ellipsoid, different construction")
    same(c, base, base, True, "reflexive")
    ne = []
    nz = np.nonzero(h)[0]
    z = np.nonzero(h == 0)[0]
    h2 = h.copy()
    k = rng.choice(nz)
    h2[k] *= rng.choice([1.02, 0.97, 1.5, 0.5])
    ne.append(E(h=h2))
    u = rng.normal(size=d)
    u /= np.linalg.norm(u)
    ne.append(E(ctr=ctr + lu * u * rng.choice([0.02, 0.1, 1.0])))
    if len(z):
        h3 = h.copy()
        h3[z[0]] = lu * rng.choice([0.01, 0.5])
        ne.append(E(h=h3))
        ne.append(E(ctr=ctr + R[:, z[0]] * 0.02 * lu))
        # turned out of its plane
        R3 = R.copy()
        a, b, t = R[:, z[0]], R[:, k], rng.choice([0.05, 0.5, np.pi / 2])
        R3[:, z[0]], R3[:, k] = np.cos(t) * a - np.sin(t) * b, np.sin(t) * a + np.cos(t) * b
        ne.append(E(R=R3))
    if d > 1 and np.ptp(h[nz]) > 0.1 * lu:
        j = nz[np.argmax(h[nz])]
        l = nz[np.argmin(h[nz])]
        h4 = h.copy()
        h4[[j, l]] = h4[[l, j]]
        ne.append(E(h=h4))
    if d > 1:
        ne.append(rg.Ellipsoid(h[:-1], center=ctr[:-1]))
    if np.abs(ctr).max() > 0.05 * lu:
        ne.append(E(ctr=-ctr))
    for b in ne:
        if b.dim == d and np.linalg.norm(np.asarray(b.center) - ctr) < 5e-3 * lu and np.allclose(b.E, base.E, atol=5e-3 * lu**2):
            continue
        same(c, base, b, False, "different ellipsoids")
    moved(c, rng, base, eq[2], d, True, "same ellipsoid", lu)
    if ne[0].dim == d:
        moved(c, rng, base, ne[0], d, False, "different ellipsoids", lu)


def rotate_out(rng, V, rank):
    return V


@P.group(quick=700, thorough=14000)
@cddspy.beyond_floats
def polyhedra(c, rng, i):
    d = int(rng.choice([1, 2, 3, 3, 4]))
    flat = d > 1 and i % 4 == 0
    for _ in range(50):
        V = gen.points(rng, d, flat)
        m = M.Poly(V)
        if m.well_conditioned():
            break
    lu = unit(rng, -1, 3)
    kw = {} if lu <= 3 else dict(tol=1e-7 * lu)  # rounding of the facets
    ex = [j for j in range(len(V)) if M.extreme_margin(V, j) > 1e-6]
    V = V * lu
    m = M.Poly(V)
    c.say(V=V)
    K = rg.ConvexPolyhedron
    X = np.vstack((V[ex], m.inside(rng, 3)))
    eq = [K.from_vertices(V[ex]), K.from_vertices(V[ex][::-1].copy()), K.from_vertices(X[rng.permutation(len(X))], prune=True)]
    if m.rank() == d:
        A, b = m.G @ m.B.T, m.g + m.G @ m.B.T @ m.p0
        p = rng.permutation(len(b))
        s = rng.uniform(0.3, 3, len(b))
        eq.append(K.from_halfspaces((s[:, None] * A)[p], (s * b)[p]))
        eq.append(K.from_halfspaces(np.vstack((A, A[:1])), np.append(b, b[0] + lu), prune=True))
    R, t = gen.rot(rng, d, "rand"), rng.uniform(-1, 1, d) * lu
    eq.append(eq[0].transform(rotation=R, translation=t).transform(rotation=R.T, translation=-R.T @ t))
    for a, b in itertools.combinations(eq, 2):
        same(c, a, b, True, "same polyhedron, different construction", **kw)
    same(c, eq[0], eq[0], True, "reflexive", **kw)
    ne = []
    W = V[ex]
    if len(W) > 2:
        j = rng.integers(len(W))
        if M.extreme_margin(W, j) > 0.02:
            ne.append(np.delete(W, j, axis=0))  # a subset
    ne.append(m.c + (W - m.c) * rng.choice([0.97, 1.03, 1.5]))
    u = rng.normal(size=d)
    ne.append(W + lu * 0.05 * u / np.linalg.norm(u))
    if m.rank() < d:
        ne.append(W + lu * 0.02 * m.N[:, 0])
    # sharing all but one vertex
    W2 = W.copy()
    j = rng.integers(len(W))
    W2[j] = m.c + (W2[j] - m.c) * 1.3
    ne.append(W2)
    for V2 in ne:
        m2 = M.Poly(V2 / lu)
        if m2.rank() == 0 or not m2.well_conditioned():
            continue
        same(c, eq[int(rng.integers(len(eq)))], K.from_vertices(V2, prune=True), False, "different polyhedra", **kw)
    if len(ne) > 1:
        moved(c, rng, eq[0], K.from_vertices(ne[-2] if m.rank() == d else ne[-3], prune=True), d, False, "different polyhedra", lu, **kw)
    moved(c, rng, eq[0], eq[2], d, True, "same polyhedron", lu, **kw)
    k = d + 1 if d < 3 or rng.random() < 0.5 else d - 1
    same(c, eq[0], K.simplex(np.ones(k)), False, "different dimensions")


@P.group(quick=1000, thorough=20000)
@cddspy.beyond_floats
def boxes(c, rng, i):
    flat = i % 4 == 0
    h = rng.uniform(0.3, 2, 3)
    if i % 3 == 0:
        h[:2] = h[0]
    if flat:
        h[rng.choice(3, int(rng.integers(1, 3)), replace=False)] = 0.0
    R, ctr = gen.rot(rng, 3, rng.choice(["id", "perm", "half", "rand", "rand"])), rng.uniform(-2, 2, 3)
    lu = unit(rng, -1, 3)
    kw = {} if lu <= 3 else dict(tol=1e-7 * lu)  # rounding of the facets
    h, ctr = h * lu, ctr * lu
    c.say(h=h, R=R, ctr=ctr)
    B = lambda h=h, R=R, ctr=ctr: rg.Box(h, rotation=R, center=ctr)
    m = M.BoxM(h, R, ctr)
    base = B()
    eq = [base, B(), rg.Box.from_side_lengths(2 * h, center=ctr, rotation=R), base.as_poly()]
    for _ in range(2):
        S = proper(signed_perm(rng, 3))
        eq.append(rg.Box(np.abs(S.T @ h), rotation=R @ S, center=ctr))
    if np.allclose(np.abs(R), np.round(np.abs(R))):
        w = np.abs(R) @ h
        s = rng.choice([-1.0, 1.0], 3)
        eq.append(rg.Box.from_two_vertices(ctr + s * w, ctr - s * w))
        eq.append(rg.Box.from_points_to_bound(m.V))
    V = np.unique(np.round(m.V / lu, 12), axis=0) * lu
    eq.append(rg.ConvexPolyhedron.from_vertices(V[rng.permutation(len(V))], prune=bool(rng.random() < 0.5)))
    Q = gen.rot(rng, 3, "rand")
    eq.append(base.rotate_about_center(Q).rotate_about_center(Q.T))
    if np.any(h == 0) and np.sum(h == 0) == 2:
        k = int(np.argmax(h))
        z = [j for j in range(3) if j != k]
        R2 = R.copy()
        R2[:, z] = R[:, z] @ gen.rot(rng, 2, "rand")  # spin a segment
        eq.append(B(R=R2))
    for a, b in itertools.combinations(eq, 2):
        same(c, a, b, True, "same box, different construction", **kw)
    same(c, base, base, True, "reflexive", **kw)
    k = int(rng.choice(np.nonzero(h)[0]))
    h2 = h.copy()
    h2[k] *= rng.choice([1.02, 0.97, 1.5, 0.5])
    u = rng.normal(size=3)
    u /= np.linalg.norm(u)
    ne = [B(h=h2), B(ctr=ctr + lu * u * rng.choice([0.02, 0.5]))]
    if np.any(h == 0):
        z = int(rng.choice(np.nonzero(h == 0)[0]))
        h3 = h.copy()
        h3[z] = lu * rng.choice([0.02, 0.5])
        ne += [B(h=h3), B(ctr=ctr + 0.02 * lu * R[:, z])]
    # one face in common
    a = lu * rng.choice([-1, 1]) * rng.choice([0.02, 0.4])
    h5 = h.copy()
    h5[k] += abs(a)
    ne.append(B(h=h5, ctr=ctr + a * R[:, k]))
    t = rng.choice([0.1, 0.4])
    j = (k + 1) % 3
    R2 = R.copy()
    R2[:, k], R2[:, j] = np.cos(t) * R[:, k] + np.sin(t) * R[:, j], -np.sin(t) * R[:, k] + np.cos(t) * R[:, j]
    ne.append(B(R=R2))
    if np.linalg.norm(ctr) > 0.1 * lu:
        ne.append(B(ctr=-ctr))
    for b in ne:
        same(c, base, b, False, "different boxes", **kw)
        same(c, eq[3], b, False, "different box and polyhedron", **kw)
    moved(c, rng, base, eq[4], 3, True, "same box", lu, **kw)
    moved(c, rng, base, ne[0], 3, False, "different boxes", lu, **kw)
    same(c, base, rg.ConvexPolyhedron.simplex([1, 1]), False, "different dimensions")
    # within and beyond a given tolerance
    tol = 10.0 ** rng.uniform(-5, -1) * max(1, lu)
    v = R[:, rng.integers(3)]
    same(c, base, B(ctr=ctr + 0.3 * tol * v), True, "within the tolerance", tol=tol)
    same(c, base, B(ctr=ctr + 5 * tol * v), False, "beyond the tolerance", tol=tol)


@P.group(quick=1000, thorough=20000)
def cylinders(c, rng, i):
    L, r = rng.uniform(0.3, 3), rng.uniform(0.2, 1.5)
    f = i % 8
    if f == 0:
        L = 0.0
    elif f == 1:
        r = 0.0
    elif f == 2:
        L = r = 0.0
    R, ctr = gen.rot(rng, 3, rng.choice(["id", "perm", "half", "rand", "rand"])), rng.uniform(-2, 2, 3)
    lu = unit(rng)
    L, r, ctr = L * lu, r * lu, ctr * lu
    cap = bool(rng.random() < 0.5)
    c.say(L=L, r=r, R=R, ctr=ctr, cap=cap)

    def Y(L=L, r=r, R=R, ctr=ctr):
        y = rg.Cylinder(L, r, rotation=R, center=ctr)
        return y.capsule() if cap else y

    def Rz(a):
        return np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])

    base = Y()
    flip = np.diag([1.0, -1.0, -1.0])
    Q, t = gen.rot(rng, 3, "rand"), rng.uniform(-1, 1, 3) * lu
    eq = [base, Y(), Y(R=R @ Rz(rng.uniform(0, 6))), Y(R=R @ flip), Y(R=R @ Rz(rng.uniform(0, 6)) @ flip),
          base.transform(rotation=Q, translation=t).transform(rotation=Q.T, translation=-Q.T @ t)]
    point = L == 0 and (r == 0 or cap)
    if point:
        eq.append(Y(R=Q))
    for a, b in itertools.combinations(eq, 2):
        same(c, a, b, True, "same capsule, different construction" if cap else "same cylinder, different construction")
    u = rng.normal(size=3)
    u /= np.linalg.norm(u)
    ne = [Y(L=L + lu * rng.choice([0.02, 0.5])), Y(r=r + lu * rng.choice([0.02, 0.5])), Y(ctr=ctr + lu * u * rng.choice([0.02, 0.5]))]
    if not point:
        a = rng.choice([0.05, 0.5, np.pi / 2])
        ne.append(Y(R=R @ np.array([[1, 0, 0], [0, np.cos(a), -np.sin(a)], [0, np.sin(a), np.cos(a)]])))
    if L > 0.1 * lu and r > 0.05 * lu:
        ne.append(Y(L=L * 0.97))
        ne.append(Y(r=r * 0.97))
        ne.append(Y(L=2 * r, r=L / 2) if abs(L - 2 * r) > 0.05 * lu else Y(L=2 * L))
    # one end in common
    a = lu * rng.choice([-1, 1]) * rng.choice([0.02, 0.6])
    ne.append(Y(L=L + abs(a), ctr=ctr + a / 2 * R[:, 2]))
    if L > 0.1 * lu:
        ne.append(Y(L=0.6 * L, ctr=ctr + rng.choice([-1, 1]) * 0.2 * L * R[:, 2]))
    for b in ne:
        same(c, base, b, False, "different capsules" if cap else "different cylinders")
    moved(c, rng, base, eq[2], 3, True, "same", lu)
    moved(c, rng, base, ne[int(rng.integers(len(ne)))], 3, False, "different", lu)
    tol = 10.0 ** rng.uniform(-4, -1) * max(1, lu)
    same(c, base, Y(ctr=ctr + 0.3 * tol * u), True, "within the tolerance", tol=tol)
    same(c, base, Y(ctr=ctr + 5 * tol * np.sign(u) * 1.0), False, "beyond the tolerance", tol=tol)


@P.group(quick=400, thorough=8000)
def families(c, rng, i):
    """Shapes of different families are never the same, even as equal sets."""
    r = rng.uniform(0.3, 2)
    ctr = rng.uniform(-1, 1, 3)
    L = rng.uniform(0.3, 2)
    y = rg.Cylinder(L, r, center=ctr)
    S = [rg.Ellipsoid.sphere(r, center=ctr), rg.Cylinder(0.0, r, center=ctr).capsule(), y, y.capsule(), rg.Box([r, r, L / 2], center=ctr),
         rg.ConvexPolyhedron.simplex([r, r, r])]
    c.say(r=r, L=L, ctr=ctr)
    for a, b in itertools.combinations(S, 2):
        same(c, a, b, False, "different families")
    # equal as sets, but different families
    seg = [rg.Cylinder(L, 0.0), rg.Box([0, 0, L / 2]), rg.Ellipsoid([0, 0, L / 2]), rg.Cylinder(L, 0.0).capsule()]
    for a, b in itertools.combinations(seg, 2):
        same(c, a, b, False, "different families, same segment")
    for a in S:
        same(c, a, a, True, "reflexive")
