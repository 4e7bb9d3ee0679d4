import itertools
import numpy as np
import rigeo as rg
from .. import cddspy, gen, model as M
from ..core import Prop

P = Prop(
    "C13",
    rule="one case = one shape from one construction path (half extents, side lengths, opposite vertices, points to bound, cube, "
    "sphere, simplex, vertices, halfspaces, capsule of a cylinder, box as polyhedron, transformed); non-trivial if sizes were judged",
    technique="runtime monitoring: reported sizes compared with exact sizes of the reference point set of the construction "
    "(and with widths and corners measured on it), over construction paths, input forms and poses",
    note="agreement to 1e-8 relative",
)


def rows(c, got, want, tag, tol=1e-9):
    want = np.asarray(want, float)
    s = max(1e-6, np.abs(want).max())
    c.check(np.shape(got) == want.shape and M.rows_match(np.asarray(got, float), want, tol * s), tag, n=len(want), got=got, want=want)


def judge_box(c, b, h, R, ctr):
    s = dict(scale=max(1e-9, np.abs(h).max(), 1e-3 * np.abs(ctr).max()))
    c.close(b.half_extents, h, "half extents", tol=1e-10, **s)
    c.close(b.side_lengths, 2 * h, "side lengths", tol=1e-10, **s)
    c.close(b.volume, 8 * np.prod(h), "volume", tol=1e-9, scale=max(8 * np.prod(h), 1e-9 * h.max() ** 3, 1e-30))
    m = M.BoxM(h, R, ctr)
    far = max(np.linalg.norm(p - q) for p, q in itertools.combinations(m.V, 2))
    c.close(b.diaglen, far, "diagonal is the largest corner distance", tol=1e-9, **s)
    c.close(b.center, ctr, "center", tol=1e-10, scale=max(1e-9, np.abs(ctr).max(), np.abs(h).max()))
    c.close(b.rotation, R, "rotation", tol=1e-10)
    rows(c, b.vertices, m.V, "corners")
    c.check(b.dim == 3 and b.nv == 8 and b.nf == 6, "dimension and counts", dim=b.dim, nv=b.nv, nf=b.nf)
    A, bb = np.asarray(b.A, float), np.asarray(b.b, float)
    # every face of the face form is a supporting plane of the corner set
    c.close(bb, m.support(A), "face offsets are support values", tol=1e-9, scale=max(1e-9, np.abs(bb).max(), np.abs(h).max()), n=len(bb))


@P.group(quick=2000, thorough=40000)
def boxes(c, rng, i):
    k = ["init", "sides", "two", "bound", "cube", "transform", "about"][i % 7]
    u = gen.length_unit(rng)
    h = gen.extents(rng, 3) * u
    r_arg, c_arg, R, ctr = gen.pose(rng, 3, size=u)
    c.say(path=k, h=h, R=R, ctr=ctr)
    mf = None if r_arg is None else gen.matform(rng, R)
    cf = None if c_arg is None else gen.form(rng, ctr)
    if k == "init":
        b = c.call(rg.Box, gen.form(rng, h), center=cf, rotation=mf)
    elif k == "sides":
        b = c.call(rg.Box.from_side_lengths, gen.form(rng, 2 * h), center=cf, rotation=mf)
    elif k == "two":
        R = np.eye(3)
        v = rng.choice([-1.0, 1.0], 3) * h
        b = c.call(rg.Box.from_two_vertices, gen.form(rng, ctr + v), gen.form(rng, ctr - v))
    elif k == "bound":
        R = np.eye(3)
        Q = gen.points(rng, 3, n=int(rng.choice([4, 8, 20, 60, 300]))) * u
        if rng.random() < 0.2:
            Q = Q[:1]
        h, ctr = np.ptp(Q, axis=0) / 2, (Q.max(axis=0) + Q.min(axis=0)) / 2
        b = c.call(rg.Box.from_points_to_bound, Q if rng.random() < 0.7 else Q.tolist())
    elif k == "cube":
        h = np.full(3, h.max())
        b = c.call(rg.Box.cube, float(h[0]) if rng.random() < 0.8 else h[0], center=cf, rotation=mf)
    elif k == "transform":
        b = c.call(rg.Box, h, center=cf, rotation=mf)
        R2, t2 = gen.rot(rng), gen.trans(rng) * u
        b = c.call(b.transform, rotation=R2, translation=t2)
        R, ctr = R2 @ R, R2 @ ctr + t2
    else:
        b = c.call(rg.Box, h, center=cf, rotation=mf)
        R2 = gen.rot(rng)
        b = c.call(b.rotate_about_center, R2)
        R = R2 @ R
    judge_box(c, b, h, R, ctr)
    if rng.random() < 0.5 and np.all(h > 0.02) and 0.1 < u < 10:
        m = M.BoxM(h, R, ctr)
        p = c.call(b.as_poly)
        c.check(not isinstance(p, rg.Box) and isinstance(p, rg.ConvexPolyhedron), "a box converts to a polyhedron")
        rows(c, p.vertices, m.V, "corners of the converted box", tol=1e-7)
        c.check(p.nv == 8 and p.nf == 6 and p.dim == 3, "counts of the converted box", nv=p.nv, nf=p.nf)


@P.group(quick=2000, thorough=40000)
def ellipsoids(c, rng, i):
    d = int(rng.choice([1, 2, 3, 3, 4, 5, 6]))
    k = ["init", "sphere", "transform", "about", "ball3"][i % 5]
    u = gen.length_unit(rng)
    h = gen.extents(rng, d) * u
    r_arg, c_arg, R, ctr = gen.pose(rng, d, size=u)
    cf = None if c_arg is None else gen.form(rng, ctr)
    if k == "init":
        if d == 1 and rng.random() < 0.5:
            e = c.call(rg.Ellipsoid, float(h[0]), center=None if c_arg is None else float(ctr[0]))
        else:
            e = c.call(rg.Ellipsoid, gen.form(rng, h), rotation=r_arg, center=cf)
    elif k == "sphere":
        h = np.full(d, h.max())
        R = np.eye(d)
        e = c.call(rg.Ellipsoid.sphere, float(h[0]), center=gen.form(rng, ctr))
    elif k == "ball3":
        d, h, R, ctr = 3, np.full(3, h.max()), np.eye(3), np.zeros(3)
        e = c.call(rg.Ellipsoid.sphere, radius=float(h[0]))
    else:
        e = c.call(rg.Ellipsoid, h, rotation=r_arg, center=cf)
        R2 = gen.rot(rng, d)
        if k == "about":
            e = c.call(e.rotate_about_center, R2)
            R = R2 @ R
        elif d == 3 or rng.random() < 0.5:
            t2 = gen.trans(rng, d) * u
            e = c.call(e.transform, rotation=R2, translation=t2)
            R, ctr = R2 @ R, R2 @ ctr + t2
    c.say(path=k, h=h, R=R, ctr=ctr)
    m = M.Ell(h, R, ctr)
    c.check(e.dim == d, "dimension", got=e.dim, want=d)
    c.check(e.rank == m.rank(), "rank", got=e.rank, h=h)
    c.check(bool(e.is_degenerate()) == (m.rank() < d), "degeneracy", got=e.is_degenerate(), h=h)
    v = m.volume()
    c.close(e.volume, v, "volume", tol=1e-9, scale=max(v, 1e-30))
    c.close(np.sort(e.half_extents), np.sort(h), "half extents", tol=1e-9, scale=max(h.max(), 1e-9))
    c.close(e.center, ctr, "center", tol=1e-10, scale=max(1e-9, np.abs(ctr).max(), h.max()))
    # as a set: half extents along the axes of its own rotation
    U = np.vstack((R.T, -R.T, rng.normal(size=(6, d))))
    Rl, hl = np.asarray(e.rotation, float), np.asarray(e.half_extents, float)
    c.close(Rl.T @ Rl, np.eye(d), "axes are orthonormal", tol=1e-9)
    c.close(M.Ell(hl, Rl, e.center).support(U), m.support(U), "axes and extents span the set", tol=1e-9, scale=10 * max(1e-9, np.abs(ctr).max(), h.max()), n=len(U))
    if v > 0:
        # volumes scale like the determinant of the shape matrix
        c.close(e.volume**2 * np.linalg.det(e.S), M.unit_ball_volume(d) ** 2, "volume and shape matrix", tol=1e-6 * max(1, (h.max() / h.min())), scale=M.unit_ball_volume(d) ** 2)


@P.group(quick=1500, thorough=30000)
def cylinders(c, rng, i):
    u = gen.length_unit(rng)
    L, r = gen._lr(rng, rng.random() < 0.2)
    L, r = L * u, r * u
    if rng.random() < 0.05:
        L, r = 0.0, 0.0
    r_arg, c_arg, R, ctr = gen.pose(rng, 3, size=u)
    far = max(1e-9, np.abs(ctr).max(), L, r)
    y = c.call(rg.Cylinder, L, r, rotation=None if r_arg is None else gen.matform(rng, R), center=None if c_arg is None else gen.form(rng, ctr))
    k = i % 4
    if k % 2:
        R2, t2 = gen.rot(rng), gen.trans(rng) * u
        y = c.call(y.transform, rotation=R2, translation=t2)
        R, ctr = R2 @ R, R2 @ ctr + t2
    c.say(L=L, r=r, R=R, ctr=ctr)
    far = max(far, np.abs(ctr).max())
    ends = np.array([ctr + R[:, 2] * L / 2, ctr - R[:, 2] * L / 2])
    if k < 2:
        c.check(y.length == L and y.radius == r, "length and radius", got=(y.length, y.radius), want=(L, r))
        c.close(y.volume, np.pi * r * r * L, "volume", tol=1e-12, scale=max(np.pi * r * r * L, 1e-30))
        rows(c, y.endpoints(), ends, "end points")
        ax = np.asarray(y.longitudinal_axis, float)
        c.close(ax * (1 if ax @ R[:, 2] > 0 else -1), R[:, 2], "longitudinal axis", tol=1e-10)
        T = np.asarray(y.transverse_axes, float)
        c.close(np.hstack((T, ax[:, None])).T @ np.hstack((T, ax[:, None])), np.eye(3), "axes are orthonormal", tol=1e-10)
        c.close(y.center, ctr, "center", tol=1e-10, scale=far)
        # the end disks
        if hasattr(y, "disks"):
            D = [(np.asarray(d.center), np.sort(np.asarray(d.half_extents, float)), np.asarray(d.E, float)) for d in y.disks]
            rows(c, [d[0] for d in D], ends, "centers of the end disks")
            for d in D:
                c.close(d[1], [0, r, r], "extents of an end disk", tol=1e-10, scale=max(r, 1e-9))
                c.close(d[2], r * r * (np.eye(3) - np.outer(R[:, 2], R[:, 2])), "plane of an end disk", tol=1e-9, scale=max(r * r, 1e-18))
    else:
        p = c.call(y.capsule) if rng.random() < 0.5 else c.call(rg.Capsule, y)
        c.check(p.inner_length == L and p.radius == r, "capsule: inner length and radius", got=(p.inner_length, p.radius))
        c.close(p.full_length, L + 2 * r, "capsule: full length", tol=1e-12, scale=max(L + 2 * r, 1e-30))
        m = M.Cap(L, r, R, ctr)
        c.close(p.full_length, m.support(R[:, 2][None])[0] + m.support(-R[:, 2][None])[0], "capsule: width along its axis", tol=1e-9, scale=far + L + r)
        c.close(p.center, ctr, "capsule: center", tol=1e-10, scale=max(far, np.abs(ctr).max()))
        c.close(p.rotation, R, "capsule: rotation", tol=1e-10)
        if hasattr(p, "caps"):
            rows(c, [k.center for k in p.caps], ends, "capsule: cap centers")
            for k in p.caps:
                c.close(k.half_extents, np.full(3, float(r)), "capsule: cap radius", tol=1e-12, scale=max(r, 1e-30))


@P.group(quick=1000, thorough=20000)
@cddspy.beyond_floats
def polyhedra(c, rng, i):
    d = int(rng.choice([1, 2, 3, 3, 4]))
    k = ["vp", "hp", "simplex", "v", "transform"][i % 5]
    flat = d > 1 and rng.random() < 0.25 and k not in ("simplex", "hp")
    if k == "simplex":
        e = rng.uniform(0.3, 2, d) if rng.random() < 0.6 else rng.integers(1, 4, d).astype(float)
        m = M.Poly(np.vstack((np.zeros(d), np.diag(e))))
        p = c.call(rg.ConvexPolyhedron.simplex, gen.form(rng, e))
    else:
        _, m = gen.poly(rng, d, flat, how="direct")
        if not m.well_conditioned():
            return
        ex = [j for j in range(len(m.V)) if M.extreme_margin(m.V, j) > 1e-6]
        V = m.V[ex]
        if k == "vp" or k == "transform":
            X = np.vstack((V, m.inside(rng, 3)))[rng.permutation(len(V) + 3)]
            p = c.call(rg.ConvexPolyhedron.from_vertices, X, prune=True)
        elif k == "v":
            p = c.call(rg.ConvexPolyhedron.from_vertices, V if rng.random() < 0.7 else V.tolist())
        else:
            p = c.call(rg.ConvexPolyhedron.from_halfspaces, m.G @ m.B.T, m.g + m.G @ m.B.T @ m.p0, prune=True)
        m = M.Poly(V)
        if k == "transform":
            R, t = gen.rot(rng, d, rng.choice(["id", "perm", "half", "rand", "plane"])), gen.trans(rng, d, False)
            p, m = c.call(p.transform, rotation=R, translation=t), m.transform(R, t)
    c.say(path=k, V=m.V, flat=flat)
    c.check(p.dim == d, "dimension", got=p.dim, want=d)
    c.check(p.nv == len(m.V), "number of vertices", got=p.nv, want=len(m.V))
    rows(c, p.vertices, m.V, "vertices", tol=1e-6)
    A, b = np.asarray(p.A, float), np.asarray(p.b, float)
    c.check(p.nf == len(b) == len(A), "one face per row", nf=p.nf, A=A.shape, b=b.shape)
    if not flat and k != "transform":
        c.check(p.nf == len(m.g), "number of faces", got=p.nf, want=len(m.g), A=A, b=b)
