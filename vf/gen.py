"""Workload generators: hostile but valid inputs in every accepted form."""
import itertools

import numpy as np
import rigeo as rg
from . import model as M


def rot(rng, d=3, kind=None):
    """A rotation matrix: identity, axis permutations, half turns, tiny or
    random rotations."""
    if kind is None:
        kind = rng.choice(["id", "perm", "half", "small", "rand", "rand", "rand", "plane"])
    if d == 1 or kind == "id":
        return np.eye(d)
    if kind == "perm":
        while True:
            Q = np.eye(d)[rng.permutation(d)] * rng.choice([-1.0, 1.0], size=d)
            if np.linalg.det(Q) > 0:
                return Q
    if kind == "half":
        s = np.ones(d)
        i, j = rng.choice(d, 2, replace=False)
        s[i] = s[j] = -1
        return np.diag(s)
    if kind in ("small", "plane"):
        i, j = rng.choice(d, 2, replace=False)
        a = rng.choice([1e-3, 1e-2, -1e-3]) if kind == "small" else rng.uniform(0.1, np.pi / 2 - 0.1) + rng.integers(4) * np.pi / 2
        Q = np.eye(d)
        Q[i, i] = Q[j, j] = np.cos(a)
        Q[i, j], Q[j, i] = -np.sin(a), np.sin(a)
        return Q
    Q, r = np.linalg.qr(rng.normal(size=(d, d)))
    Q = Q * np.sign(np.diag(r))
    if np.linalg.det(Q) < 0:
        Q[:, 0] *= -1
    return Q


def trans(rng, d=3, big=True):
    k = rng.choice(["zero", "unit", "unit", "int", "far"]) if big else rng.choice(["zero", "unit", "int"])
    if k == "zero":
        return np.zeros(d)
    if k == "unit":
        return rng.uniform(-2, 2, d)
    if k == "int":
        return rng.integers(-3, 4, d).astype(float)
    return rng.uniform(-30, 30, d)


def form(rng, x, ints=True):
    """The same vector as list, tuple, float array or (if exact) int input."""
    x = np.array(x, float)
    opts = ["array", "list", "tuple"]
    if ints and np.all(x == np.round(x)):
        opts += ["intlist", "intarray"]
    k = rng.choice(opts)
    if k == "array":
        return x
    if k == "list":
        return x.tolist()
    if k == "tuple":
        return tuple(x.tolist())
    if k == "intlist":
        return [int(v) for v in x]
    return x.astype(int)


def matform(rng, R):
    return R.tolist() if rng.random() < 0.2 else R


def pose(rng, d=3, big=True, size=1.0):
    """(rotation or None, center or None, exact R, exact c)."""
    R, c = rot(rng, d), trans(rng, d, big) * size
    u = rng.random()
    r_arg, c_arg = R, c
    if u < 0.15:
        R, r_arg = np.eye(d), None
    elif u < 0.3:
        c, c_arg = np.zeros(d), None
    elif u < 0.35:
        R, r_arg, c, c_arg = np.eye(d), None, np.zeros(d), None
    return r_arg, c_arg, R, c


def extents(rng, d=3, flat=None, lo=0.2, hi=2.0):
    """Half extents; ``flat`` True/False forces/forbids zeros."""
    k = rng.choice(["gen", "gen", "gen", "equal", "int", "two", "thin"])
    if k == "gen":
        h = rng.uniform(lo, hi, d)
    elif k == "equal":
        h = np.full(d, rng.uniform(lo, hi))
    elif k == "int":
        h = rng.integers(1, 4, d).astype(float)
    elif k == "two":
        h = rng.uniform(lo, hi, d)
        if d > 1:
            i, j = rng.choice(d, 2, replace=False)
            h[i] = h[j]
    else:
        h = rng.uniform(lo, hi, d)
        h[rng.integers(d)] *= 0.02
    if flat is None:
        flat = rng.random() < 0.25
    if flat:
        z = rng.integers(1, d + 1) if rng.random() < 0.3 else 1
        h[rng.choice(d, z, replace=False)] = 0.0
    return h


def length_unit(rng, lo=-2.0, hi=3.0, p=0.4):
    """The size of the shapes of a case: usually around one, sometimes any."""
    return 1.0 if rng.random() > p else float(10 ** rng.uniform(lo, hi))


def unit(rng, n, d):
    u = rng.normal(size=(n, d))
    return u / np.linalg.norm(u, axis=1, keepdims=True)


# -- point sets ------------------------------------------------------------------


def points(rng, d=3, flat=None, n=None, rotate=True, size=1.0):
    """A vertex set (convex position not required) of chosen affine rank."""
    if flat is None:
        flat = rng.random() < 0.25
    r = int(rng.integers(1, d)) if (flat and d > 1) else d
    k = rng.choice(["ball", "sphere", "box", "grid", "simplex"])
    if n is None:
        n = int(rng.integers(r + 1, r + 8))
    n = max(n, r + 1)
    for _ in range(50):
        if k == "ball":
            P = rng.uniform(-1, 1, (n, r))
        elif k == "sphere":
            P = rng.normal(size=(n, r))
            P /= np.linalg.norm(P, axis=1, keepdims=True)
        elif k == "box":
            P = np.array(list(itertools.product([1.0, -1.0], repeat=r)))[: max(n, 2**r)]
            P = P * rng.uniform(0.3, 1, r)
        elif k == "grid":
            P = rng.integers(-1, 2, (n, r)).astype(float)
            P = np.unique(P, axis=0)
        else:
            P = np.vstack((np.zeros(r), np.diag(rng.uniform(0.4, 1.5, r))))
        if len(P) > r and np.linalg.svd(P - P.mean(0))[1][-1] > 0.25 * np.sqrt(len(P)) * 0.3:
            break
    else:
        P = np.vstack((np.zeros(r), np.eye(r)))
    P = P[np.sort(np.unique(np.round(P, 9), axis=0, return_index=True)[1])]
    P = P * size
    if r < d:
        P = np.hstack((P, np.zeros((len(P), d - r))))
    if rotate:
        # (no tiny rotations: near-duplicate facets are beyond cdd's floats)
        P = P @ rot(rng, d, rng.choice(["id", "perm", "half", "rand", "rand", "rand", "plane"])).T
        t = trans(rng, d, big=False)
        P = P + t
    return P


# -- shapes ----------------------------------------------------------------------


def box(rng, flat=False, big=True, size=1.0):
    h = extents(rng, 3, flat) * size
    r_arg, c_arg, R, c = pose(rng, 3, big, size)
    k = rng.choice(["init", "sides", "two", "cube"])
    if k == "two":
        R = np.eye(3)
        v1 = c + h * np.where(rng.random(3) < 0.5, -1, 1)
        v2 = 2 * c - v1
        return rg.Box.from_two_vertices(form(rng, v1), form(rng, v2)), M.BoxM(h, R, c)
    if k == "cube" and not flat:
        h = np.full(3, h[0] if h[0] > 0 else size)
        return rg.Box.cube(float(h[0]), center=c_arg, rotation=r_arg), M.BoxM(h, R, c)
    if k == "sides":
        return (
            rg.Box.from_side_lengths(form(rng, 2 * h), center=c_arg, rotation=r_arg),
            M.BoxM(h, R, c),
        )
    return rg.Box(form(rng, h), center=None if c_arg is None else form(rng, c), rotation=r_arg), M.BoxM(h, R, c)


def ellipsoid(rng, d=3, flat=False, big=True, size=1.0):
    h = extents(rng, d, flat) * size
    r_arg, c_arg, R, c = pose(rng, d, big, size)
    if not flat and rng.random() < 0.15:
        r = float(h[0])
        h = np.full(d, r)
        if c_arg is None and d == 3:
            return rg.Ellipsoid.sphere(r), M.Ell(h, None, c)
        return rg.Ellipsoid.sphere(r, center=c), M.Ell(h, None, c)
    return (
        rg.Ellipsoid(form(rng, h), rotation=r_arg, center=None if c_arg is None else form(rng, c)),
        M.Ell(h, R, c),
    )


def _lr(rng, flat):
    L, r = rng.uniform(0.3, 3), rng.uniform(0.2, 1.5)
    if rng.random() < 0.3:
        L, r = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    if flat:
        if rng.random() < 0.5:
            L = 0.0
        else:
            r = 0.0
    return L, r


def cylinder(rng, flat=False, big=True, size=1.0):
    L, r = _lr(rng, flat)
    if size != 1.0:
        L, r = L * size, r * size
    r_arg, c_arg, R, c = pose(rng, 3, big, size)
    return (
        rg.Cylinder(L, r, rotation=r_arg, center=None if c_arg is None else form(rng, c)),
        M.Cyl(L, r, R, c),
    )


def capsule(rng, flat=False, big=True, size=1.0):
    L, r = _lr(rng, flat)
    if size != 1.0:
        L, r = L * size, r * size
    r_arg, c_arg, R, c = pose(rng, 3, big, size)
    cyl = rg.Cylinder(length=L, radius=r, rotation=r_arg, center=c_arg)
    lib = cyl.capsule() if rng.random() < 0.5 else rg.Capsule(cyl)
    return lib, M.Cap(L, r, R, c)


def poly(rng, d=3, flat=False, how=None, size=1.0, many=True):
    for _ in range(100):
        P = points(rng, d, flat, n=int(rng.integers(10, 31)) if many and d > 1 and rng.random() < 0.06 else None)
        m = M.Poly(P)
        if m.well_conditioned():
            break
    if size != 1:
        P = P * size
        m = M.Poly(P)
    how = how or rng.choice(["v", "vp", "h", "hp", "simplex", "direct"])
    if how == "simplex" and not flat:
        e = rng.uniform(0.3, 2, d)
        if rng.random() < 0.3:
            e = rng.integers(1, 4, d).astype(float)
        e = e * size
        return rg.ConvexPolyhedron.simplex(form(rng, e)), M.Poly(np.vstack((np.zeros(d), np.diag(e))))
    if how in ("h", "hp") and not flat and d >= 1:
        return rg.ConvexPolyhedron.from_halfspaces(m.G @ m.B.T, m.g + m.G @ m.B.T @ m.p0, prune=how == "hp"), m
    if how == "direct":
        return rg.ConvexPolyhedron(span_form=rg.SpanForm(vertices=P)), m
    # without pruning the caller promises extremal vertices
    if how == "v" and not flat and rng.random() < 0.5:
        return rg.ConvexPolyhedron.from_vertices(P.tolist()), m
    return rg.ConvexPolyhedron.from_vertices(P, prune=how == "vp"), m


def simplex_or_hull_params(m):
    return m.params()


def any_shape(rng, flat=None, kinds=("box", "poly", "ellipsoid", "cylinder", "capsule"), big=False, size=1.0):
    if flat is None:
        flat = rng.random() < 0.2
    k = rng.choice(list(kinds))
    if k == "poly":
        lib, m = poly(rng, 3, flat, size=size)
    else:
        lib, m = {"box": box, "ellipsoid": ellipsoid, "cylinder": cylinder, "capsule": capsule}[k](rng, flat=flat, big=big, size=size)
    return lib, m


def lib_from_model(m):
    """A library shape built the plain way from a reference model."""
    if isinstance(m, M.BoxM):
        return rg.Box(m.h, center=m.c, rotation=m.R)
    if isinstance(m, M.Poly):
        return rg.ConvexPolyhedron.from_vertices(m.V, prune=True)
    if isinstance(m, M.Ell):
        return rg.Ellipsoid(m.h, rotation=m.R, center=m.c)
    if isinstance(m, M.Cyl):
        return rg.Cylinder(m.L, m.r, rotation=m.R, center=m.c)
    if isinstance(m, M.Cap):
        return rg.Cylinder(m.L, m.r, rotation=m.R, center=m.c).capsule()
    raise TypeError(m)


# -- mass distributions ------------------------------------------------------------


def masses(rng, n):
    m = rng.uniform(0.05, 2, n)
    if rng.random() < 0.2:
        m[rng.integers(n)] = 0.0
    return m


def sums(ms, P):
    """mass, h, H of point masses by their defining sums."""
    ms, P = np.asarray(ms, float), np.asarray(P, float)
    return float(ms.sum()), ms @ P, (P * ms[:, None]).T @ P


def pim(ms, P):
    m, h, H = sums(ms, P)
    J = np.zeros((4, 4))
    J[:3, :3], J[:3, 3], J[3, :3], J[3, 3] = H, h, h, m
    return J


def vec_of_J(J):
    H = J[:3, :3]
    I = np.trace(H) * np.eye(3) - H
    return np.array([J[3, 3], *J[:3, 3], I[0, 0], I[0, 1], I[0, 2], I[1, 1], I[1, 2], I[2, 2]])


KIND = {"Box": "box", "ConvexPolyhedron": "poly", "Ellipsoid": "ellipsoid", "Cylinder": "cylinder", "Capsule": "capsule"}
