"""The library's samplers of points, with reference membership."""
import numpy as np
import rigeo as rg
from . import gen, model as M


class Sampler:
    def __init__(self, name, fn, member, dim, model=None, uniform=True):
        self.name, self.fn, self.member, self.dim, self.model, self.uniform = name, fn, member, dim, model, uniform


def _in(m, tol=1e-8):
    def f(X):
        g, off = m.viol(X)
        return (g <= tol * m.scale()) & (off <= tol * m.scale())

    return f


def _box_surface(m, edges, tol=1e-8):
    def f(X):
        q = np.abs((X - m.c) @ m.R)
        t = tol * m.scale()
        on = np.abs(q - m.h) <= t
        return np.all(q <= m.h + t, axis=1) & (on.sum(axis=1) >= (2 if edges else 1))

    return f


def _ell_surface(m, tol=1e-8):
    def f(X):
        q = ((X - m.c) @ m.R) / m.h
        return np.abs(np.linalg.norm(q, axis=1) - 1) <= tol * m.scale() / m.h.min()

    return f


def extreme(rng, kind):
    """Samplers of very long, very thin, very large or very small shapes."""
    r_arg, c_arg, R, c = gen.pose(rng, 3, False)
    size = float(10.0 ** rng.uniform(-2, 2))
    if kind in ("cylinder", "capsule"):
        a = float(10.0 ** rng.uniform(-2.5, 2.5))
        L, r = size * max(a, 1e-3), size
        if a > 1:
            L, r = size, size / a
        y = rg.Cylinder(L, r, rotation=r_arg, center=c_arg)
        lib, m = (y, M.Cyl(L, r, R, c)) if kind == "cylinder" else (y.capsule(), M.Cap(L, r, R, c))
        return Sampler(kind, lib.random_points, _in(m), 3, m)
    d = 3 if kind != "ellipsoid_d" else int(rng.choice([1, 2, 4, 5]))
    h = size * 10.0 ** (-rng.uniform(0, 2.5, d) * (rng.random(d) < 0.6))
    if kind.startswith("ellipsoid_surface"):
        h = np.maximum(h, 0.15 * h.max())
    if d != 3:
        r_arg, c_arg, R, c = gen.pose(rng, d, False)
    if kind.startswith("box"):
        lib, m = rg.Box(h, center=c_arg, rotation=r_arg), M.BoxM(h, R, c)
    else:
        lib, m = rg.Ellipsoid(h, center=c_arg, rotation=r_arg), M.Ell(h, R, c)
    if kind in ("box_surface", "box_edges"):
        e = kind == "box_edges"
        return Sampler(kind, lib.random_points_on_edges if e else lib.random_points_on_surface, _box_surface(m, e), 3, m)
    if kind == "ellipsoid_surface":
        return Sampler(kind, lib.random_points_on_surface, _ell_surface(m), d, m)
    return Sampler(kind, lib.random_points, _in(m), d, m)


EXTREME = ["box", "ellipsoid", "ellipsoid_d", "cylinder", "capsule", "box_surface", "box_edges", "ellipsoid_surface"]


def heavy(rng):
    """Rejection sampling from three to eight strongly overlapping shapes."""
    n = int(rng.integers(3, 9))
    ctr = rng.uniform(-2, 2, 3)
    ls, ms = [], []
    for _ in range(n):
        while True:
            l, m = gen.any_shape(rng, flat=False, kinds=("box", "ellipsoid", "cylinder", "capsule"))
            h = getattr(m, "h", None)
            if h is None or h.min() > 0.15:
                break
        t = ctr + rng.uniform(-0.4, 0.4, 3) - m.c
        ls.append(l.transform(translation=t))
        ms.append(m.transform(np.eye(3), t))
    lo = np.min([m.bbox()[0] for m in ms], axis=0) - 0.05
    hi = np.max([m.bbox()[1] for m in ms], axis=0) + 0.05
    B = rg.Box((hi - lo) / 2, center=(hi + lo) / 2)
    ins = [_in(m, 1e-6) for m in ms]
    s = Sampler("rejection_heavy", lambda shape=1, rng=None: rg.rejection_sample(list(ls), B, shape, rng=rng), lambda X: np.any([f(X) for f in ins], axis=0), 3, ms[0])
    s.models, s.lo, s.hi = ms, lo, hi
    s.fraction = max(m.volume() for m in ms) / np.prod(hi - lo)
    return s


def sampler(rng, kind=None, flat=False):
    kind = kind or rng.choice([
        "box", "ellipsoid", "ellipsoid_d", "cylinder", "capsule", "poly", "box_surface", "box_edges",
        "ellipsoid_surface", "ellipsoid_surface_d", "ball", "sphere", "rejection", "rejection_union",
    ])
    if kind in ("box", "cylinder", "capsule"):
        lib, m = getattr(gen, kind)(rng, flat=flat, big=False)
        return Sampler(kind, lib.random_points, _in(m), 3, m)
    if kind in ("ellipsoid", "ellipsoid_d"):
        d = 3 if kind == "ellipsoid" else int(rng.choice([1, 2, 4, 5]))
        lib, m = gen.ellipsoid(rng, d, flat=flat, big=False)
        return Sampler(kind, lib.random_points, _in(m), d, m)
    if kind == "poly":
        d = int(rng.choice([1, 2, 3, 3, 4]))
        lib, m = gen.poly(rng, d, flat=flat and d > 1)
        return Sampler(kind, lib.random_points, _in(m), d, m, uniform=False)
    if kind in ("box_surface", "box_edges"):
        h = gen.extents(rng, 3, False)
        if flat:
            h[rng.integers(3)] = 0.0
        r_arg, c_arg, R, c = gen.pose(rng, 3, False)
        lib, m = rg.Box(gen.form(rng, h), center=c_arg, rotation=r_arg), M.BoxM(h, R, c)
        e = kind == "box_edges"
        return Sampler(kind, lib.random_points_on_edges if e else lib.random_points_on_surface, _box_surface(m, e), 3, m)
    if kind in ("ellipsoid_surface", "ellipsoid_surface_d"):
        d = 3 if kind == "ellipsoid_surface" else int(rng.choice([1, 2, 4]))
        h = gen.extents(rng, d, False)
        h = np.maximum(h, 0.15 * h.max())
        r_arg, c_arg, R, c = gen.pose(rng, d, False)
        lib, m = rg.Ellipsoid(gen.form(rng, h), center=c_arg, rotation=r_arg), M.Ell(h, R, c)
        return Sampler(kind, lib.random_points_on_surface, _ell_surface(m), d, m)
    if kind == "ball":
        d = int(rng.choice([1, 2, 3, 3, 5]))
        m = M.Ell(np.ones(d))
        fn = (lambda shape=1, rng=None: rg.random_points_in_ball(shape=shape, dim=d, rng=rng))
        return Sampler(kind, fn, _in(m), d, m)
    if kind == "sphere":
        d = int(rng.choice([0, 1, 2, 2, 3, 4]))
        m = M.Ell(np.ones(d + 1))
        fn = (lambda shape=1, rng=None: rg.random_points_on_hypersphere(shape=shape, dim=d, rng=rng))
        return Sampler(kind, fn, _ell_surface(m), d + 1, m)
    # rejection sampling from a union, out of a bounding shape
    n = 1 if kind == "rejection" else int(rng.integers(2, 4))
    ls, ms = zip(*[gen.any_shape(rng, flat=False, big=False) for _ in range(n)])
    lo = np.min([m.bbox()[0] for m in ms], axis=0) - 0.1
    hi = np.max([m.bbox()[1] for m in ms], axis=0) + 0.1
    B = rg.Box((hi - lo) / 2, center=(hi + lo) / 2)
    if rng.random() < 0.3:
        B = rg.Ellipsoid.sphere(np.linalg.norm(hi - lo) / 2, center=(hi + lo) / 2)

    def fn(shape=1, rng=None):
        return rg.rejection_sample(list(ls), B, shape, rng=rng)

    ins = [_in(m, 1e-6) for m in ms]
    s = Sampler(kind, fn, lambda X: np.any([f(X) for f in ins], axis=0), 3, ms[0])
    s.models, s.lo, s.hi = ms, lo, hi
    s.fraction = max(m.volume() for m in ms) / np.prod(hi - lo)
    return s
