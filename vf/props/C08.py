import numpy as np
import rigeo as rg
from .. import gen, model as M
from ..core import Prop
from scipy.linalg import orth

P = Prop(
    "C08",
    rule="one case = one thing to bound (shape of any kind, point set of any rank and dimension, set of ellipsoids) and "
    "its bounding ellipsoid or sphere; non-trivial if containment and the volume were both judged",
    technique="runtime monitoring: returned ellipsoids judged online by containment and certified volume lower bounds",
    note="minimality is judged against a rigorous lower bound (weak duality of D-optimal design) or the exact minimum "
    "enclosing ball of the points (contact points for curved shapes), so a passing answer is optimal up to 1e-3",
    assumptions=["point sets without affine directions thinner than 1e-3 of their extent, other than exactly flat ones"],
)


def unit(rng, n, d):
    u = rng.normal(size=(n, d))
    return u / np.linalg.norm(u, axis=1, keepdims=True)


def read(c, E, d):
    """Half extents, rotation, center of a returned ellipsoid."""
    if not c.check(isinstance(E, rg.Ellipsoid) and E.dim == d, "the result is an ellipsoid of the dimension", got=repr(E)[:200]):
        return None
    h, R, x = np.asarray(E.half_extents, float), np.asarray(E.rotation, float), np.asarray(E.center, float)
    if not c.check(np.all(np.isfinite(h)) and np.all(np.isfinite(x)) and np.allclose(R @ R.T, np.eye(d), atol=1e-6), "the result is well formed", h=h, R=R, center=x):
        return None
    return h, R, x


def contains_points(c, h, R, x, X, tag, tol=1e-4, scale=1.0):
    q = (X - x) @ R
    z = h <= 1e-7 * scale
    off = np.max(np.abs(q[:, z]), axis=1) if z.any() else np.zeros(len(X))
    F = np.sqrt(np.sum((q[:, ~z] / h[~z]) ** 2, axis=1)) if (~z).any() else np.zeros(len(X))
    ok = (F <= 1 + tol) & (off <= 1e-5 * scale)
    c.check(ok.all(), tag, n=len(X), F=F.max(), off=off.max(), h=h, p=X[~ok][:1])


def judge_sphere(c, E, X, d, sc, mk=None):
    """E must be the smallest sphere around X (or around the set that mk
    completes with its farthest points)."""
    r = read(c, E, d)
    if r is None:
        return
    h, R, x = r
    c.check(np.ptp(h) <= 1e-5 * max(h.max(), 1e-9), "a requested sphere is a sphere", h=h)
    _, r0 = M.min_sphere(X)
    contains_points(c, np.full(d, max(h.max(), 1e-12)), np.eye(d), x, X, "the sphere contains everything", scale=sc)
    c.check(h.max() <= r0 * (1 + 1e-3) + 1e-6 * sc, "no smaller sphere does", got=h.max(), smallest=r0)


def judge_ellipsoid(c, E, X, d, sc, extra=None):
    """E must be the minimum-volume ellipsoid of X (rows; maybe flat)."""
    r = read(c, E, d)
    if r is None:
        return
    h, R, x = r
    contains_points(c, h, R, x, X if extra is None else np.vstack((X, extra)), "the ellipsoid contains everything", scale=sc)
    D = X - X[0]
    U = orth(D.T, rcond=1e-7)
    k = U.shape[1]
    nz = h > 1e-6 * sc
    if not c.check(nz.sum() == k, "the ellipsoid spans exactly the affine hull", rank=int(nz.sum()), want=k, h=h):
        return
    if k == 0:
        c.check(np.allclose(x, X[0], atol=1e-7 * sc), "a single point is its own ellipsoid", x=x)
        return
    lb = M.mvee_lower_bound(D @ U)
    vol = M.unit_ball_volume(k) * np.prod(h[nz])
    c.check(vol <= lb * (1 + 3e-3), "no ellipsoid of smaller volume does", got=vol, lower_bound=lb)
    c.check(vol >= lb * (1 - 1e-3), "volume is not below what is possible", got=vol, lower_bound=lb)


@P.group(quick=200, thorough=4000)
def points(c, rng, i):
    d = int(rng.choice([1, 2, 3, 3, 3, 4]))
    fl = d > 1 and rng.random() < 0.3
    sphere = bool(rng.random() < 0.4)
    X = gen.points(rng, d, flat=fl, n=int(rng.integers(1, d + 10)) if i % 10 else int(rng.choice([20, 30, 45, 60])))
    if d > 1 and not fl and i % 3 == 0:
        # elongated, some of the extreme points close to the middle
        if rng.random() < 0.5:
            X = np.vstack((np.eye(d), -np.eye(d)))[: 2 * d - int(rng.integers(0, 2))] * rng.uniform(0.6, 1, (1, 1))
            X = np.vstack((X, rng.uniform(-0.5, 0.5, (int(rng.integers(0, 6)), d))))
        X = X * rng.permutation(np.array([1.0, rng.uniform(0.08, 0.4), rng.uniform(0.08, 1), 0.3])[:d]) * rng.choice([1.0, 4.0])
        X = X @ gen.rot(rng, d, rng.choice(["id", "perm", "rand"])).T + gen.trans(rng, d, big=False)
    w = rng.exponential(size=(int(rng.integers(0, 6)), len(X)))
    X = np.vstack((X, (w / w.sum(1, keepdims=True)) @ X)) if len(w) else X
    if rng.random() < 0.2:
        X = np.vstack((X, X[[0]]))
    X = X[rng.permutation(len(X))] * gen.length_unit(rng, -4, 6)
    c.say(d=d, flat=fl, sphere=sphere, X=X)
    sc = max(1e-12, np.abs(X).max())
    kw = dict(rcond=1e-9) if (fl or rng.random() < 0.3) else {}
    E = c.call(rg.mbe_of_points, X, sphere=sphere, **kw)
    (judge_sphere if sphere else judge_ellipsoid)(c, E, X, d, sc)


@P.group(quick=60, thorough=1200)
def thin_points(c, rng, i):
    """Clouds that are thin, but not flat, along one or more directions."""
    d = int(rng.choice([2, 3, 3, 4]))
    a = 10 ** rng.uniform(-3, -1.5)
    X = rng.normal(size=(int(rng.integers(d + 2, 20)), d)) * rng.permutation(np.concatenate(([1.0, a], rng.choice([a, 0.6], d - 2))))
    X = X @ gen.rot(rng, d, rng.choice(["id", "perm", "rand"])).T + gen.trans(rng, d, big=False)
    X = X * float(rng.choice([1.0, 1.0, 4.0]))
    c.say(d=d, a=a, X=X)
    E = c.call(rg.mbe_of_points, X)
    r = read(c, E, d)
    if r is None:
        return
    h, R, x = r
    if not c.check(h.min() > 0, "a thin cloud is not flat", h=h, a=a):
        return
    F = np.sqrt(np.sum(((X - x) @ R / h) ** 2, axis=1))
    c.check(F.max() <= 1 + 1e-4, "the ellipsoid contains every point of a thin cloud", F=F.max(), h=h)
    lb = M.mvee_lower_bound(X - X[0])
    vol = M.unit_ball_volume(d) * np.prod(h)
    c.check(vol <= lb * (1 + 3e-3), "no ellipsoid of smaller volume does", got=vol, lower_bound=lb, a=a)


@P.group(quick=120, thorough=2500)
def odd_points(c, rng, i):
    """Single, repeated, collinear, two points; sets off the origin."""
    d = int(rng.choice([1, 2, 3, 3, 4]))
    k = rng.choice(["single", "repeated", "two", "collinear"])
    sphere = bool(rng.random() < 0.4)
    x0 = gen.trans(rng, d, big=False)
    if k == "single":
        X = x0[None]
    elif k == "repeated":
        X = np.repeat(x0[None], 3, axis=0)
    else:
        u = unit(rng, 1, d)[0] if rng.random() < 0.7 else np.eye(d)[rng.integers(d)]
        t = np.array([0.0, 2.0]) if k == "two" else rng.permutation(np.array([0.0, 0.4, 1.0, 2.5]))
        X = x0 + np.outer(t, u)
    c.say(d=d, k=k, sphere=sphere, X=X)
    E = c.call(rg.mbe_of_points, X, sphere=sphere, rcond=1e-9)
    if k in ("single", "repeated"):
        r = read(c, E, d)
        if r is not None:
            c.check(np.all(r[0] <= 1e-7) and np.allclose(r[2], x0, atol=1e-9), "a single point is its own ellipsoid", h=r[0], x=r[2])
        return
    (judge_sphere if sphere else judge_ellipsoid)(c, E, X, d, max(1.0, np.abs(X).max()))


def contact(m, A, b, rng):
    """Points of a curved model where |A x + b| is (locally) largest."""
    x0 = np.vstack((m.boundary(rng, 40), m.support_point(np.vstack((m.R.T, -m.R.T)))))
    return M.maximize_over(m, A, b, x0)


@P.group(quick=250, thorough=5000)
def shapes(c, rng, i):
    u = gen.length_unit(rng, -4, 6)
    lib, m = gen.any_shape(rng, flat=bool(rng.random() < 0.25), big=False, size=u)
    if m.kind == "capsule" and m.r < 0.05 * u:
        return
    sphere = bool(rng.random() < 0.4)
    flat = m.rank() < 3
    c.say(kind=m.kind, sphere=sphere, model=m.params())
    sc = m.size()
    if m.kind == "capsule" and flat and not sphere:
        return
    kw = dict(rcond=1e-9) if flat else {}
    E = c.call(lib.mbe, sphere=sphere, **kw)
    r = read(c, E, 3)
    if r is None:
        return
    h, R, x = r
    # exact optimum by symmetry or from the points it must bound
    X = points_of(m)
    if X is not None:
        (judge_sphere if sphere else judge_ellipsoid)(c, E, X, 3, sc)
        if m.kind in ("box", "cylinder") and not sphere:
            # closed forms: no solver involved, so no solver accuracy either
            k = np.sqrt(m.rank())
            want = k * m.h if m.kind == "box" else np.array([k / np.sqrt(2) * m.r] * 2 + [k * m.L / 2])
            c.close(np.sort(h), np.sort(want), "closed-form half extents", tol=1e-8, scale=sc)
    if m.kind == "ellipsoid":
        if sphere:
            c.check(np.ptp(h) <= 1e-9 * sc and abs(h.max() - m.h.max()) < 1e-9 * sc and np.allclose(x, m.c, atol=1e-9 * sc), "bounding sphere of an ellipsoid", h=h, want=m.h.max())
        else:
            W = R @ np.diag(h**2) @ R.T
            c.check(np.allclose(W, m.E(), atol=1e-9 * sc**2) and np.allclose(x, m.c, atol=1e-9 * sc), "an ellipsoid bounds itself", got=W, want=m.E())
    elif m.kind == "capsule":
        judge_capsule(c, m, h, R, x, sphere, sc, rng)
    B = np.vstack((m.boundary(rng, 60), m.inside(rng, 20)))
    contains_points(c, h, R, x, B, "the bounding ellipsoid contains the shape", scale=sc)


def judge_capsule(c, m, h, R, x, sphere, sc, rng):
    if sphere:
        c.check(np.ptp(h) <= 1e-4 * h.max(), "a requested sphere is a sphere", h=h)
        c.check(abs(h.max() - (m.L / 2 + m.r)) <= 1e-3 * sc, "smallest sphere around a capsule", got=h.max(), want=m.L / 2 + m.r)
        return
    # rigorous lower bound from points the ellipsoid touches
    A = np.diag(1 / h) @ R.T
    X = contact(m, A, -A @ x, rng)
    F = np.linalg.norm((X - x) @ A.T, axis=1)
    c.check(F.max() <= 1 + 1e-4, "the ellipsoid contains everything", F=F.max(), h=h)
    ring = sample_ring(m, X)
    lb = M.mvee_lower_bound(ring, gap=1e-6)
    vol = M.unit_ball_volume(3) * np.prod(h)
    c.check(vol <= lb * (1 + 5e-3), "no ellipsoid of smaller volume does", got=vol, lower_bound=lb, h=h)


def sample_ring(m, X):
    """Spin contact points about the capsule's axis, plus mirror images."""
    q = (X - m.c) @ m.R
    rho = np.hypot(q[:, 0], q[:, 1])
    z = np.abs(q[:, 2])
    sc = m.size()
    k = np.unique(np.round(np.stack((rho, z), 1) / sc, 6), axis=0) * sc
    th = np.arange(12) * 2 * np.pi / 12
    out = []
    for r_, z_ in k[np.argsort(-(k[:, 0] + k[:, 1]))][:12]:
        for s in (1, -1):
            out.append(np.stack((r_ * np.cos(th), r_ * np.sin(th), np.full(12, s * z_)), 1))
    return np.vstack(out) @ m.R.T + m.c


def points_of(m):
    if m.kind in ("box", "poly"):
        return m.V
    if m.kind == "cylinder":
        th = np.arange(12) * 2 * np.pi / 12
        q = np.stack((m.r * np.cos(th), m.r * np.sin(th), np.zeros(12)), 1)
        X = np.vstack((q + [0, 0, m.L / 2], q - [0, 0, m.L / 2]))
        return X @ m.R.T + m.c
    return None


@P.group(quick=150, thorough=2500)
def ellipsoids(c, rng, i):
    d = int(rng.choice([1, 2, 3, 3, 3, 4]))
    n = int(rng.integers(1, 5)) if i % 7 else int(rng.integers(5, 12))
    sphere = bool(rng.random() < 0.35)
    ms = []
    for _ in range(n):
        h = gen.extents(rng, d, False, lo=0.4)
        h = np.maximum(h, 0.2)
        ms.append(M.Ell(h, gen.rot(rng, d), gen.trans(rng, d, big=False)))
    if n > 1 and rng.random() < 0.15:
        ms[1] = M.Ell(ms[0].h * 0.5, ms[0].R, ms[0].c)  # nested
    u = gen.length_unit(rng, -4, 6)
    ms = [M.Ell(m.h * u, m.R, m.c * u) for m in ms]
    c.say(d=d, sphere=sphere, ms=[m.params() for m in ms])
    E = c.call(rg.mbe_of_ellipsoids, [rg.Ellipsoid(m.h, rotation=m.R, center=m.c) for m in ms], sphere=sphere)
    r = read(c, E, d)
    if r is None:
        return
    h, R, x = r
    sc = max(m.size() for m in ms)
    A = np.diag(1 / h) @ R.T
    F = []
    for m in ms:
        X = M.maximize_over(m, A, -A @ x, m.boundary(rng, 60), iters=400)
        f = np.linalg.norm((X - x) @ A.T, axis=1)
        F.append(f.max())
    c.check(max(F) <= 1 + 2e-4, "contains every ellipsoid", n=n, F=max(F), h=h)
    c.check(max(F) >= 1 - 2e-4, "touches what it bounds", F=max(F))
    if sphere:
        c.check(np.ptp(h) <= 1e-4 * h.max(), "a requested sphere is a sphere", h=h)
        r0 = M.min_sphere_lower_bound(ms, rng)
        c.check(h.max() <= r0 * (1 + 5e-3) + 1e-6 * sc, "no smaller sphere does", got=h.max(), lower_bound=r0)
        return
    if n == 1:
        c.check(np.allclose(R @ np.diag(h**2) @ R.T, ms[0].E(), rtol=0, atol=2e-3 * sc**2), "one ellipsoid bounds itself", got=h, want=ms[0].h)
        return
    X = dense_contacts(ms, A, x, rng)
    vol = M.unit_ball_volume(d) * np.prod(h)
    lb = M.mvee_lower_bound_of(ms, X, rng=rng, target=vol / (1 + 3e-3))
    c.check(vol <= lb * (1 + 6e-3), "no ellipsoid of smaller volume does", got=vol, lower_bound=lb, h=h)


def dense_contacts(ms, A, x, rng):
    """Boundary points of the bounded ellipsoids near where they touch the
    bounding one (and the touching points themselves): any ellipsoid around
    the originals also contains these."""
    out = []
    for m in ms:
        X0 = M.maximize_over(m, A, -A @ x, m.boundary(rng, 60), iters=400)
        f = np.linalg.norm((X0 - x) @ A.T, axis=1)
        X0 = X0[f > f.max() - 1e-3][:20]
        out.append(X0)
        # small spread around them on the boundary of m
        q = ((X0 - m.c) @ m.R) / m.h
        for s in (1e-3, 1e-2, 0.05):
            w = q + s * rng.normal(size=q.shape)
            w /= np.linalg.norm(w, axis=1, keepdims=True)
            out.append((w * m.h) @ m.R.T + m.c)
        out.append(m.boundary(rng, 30))
        out.append(m.support_point(np.vstack((m.R.T, -m.R.T))))
    return np.vstack(out)
