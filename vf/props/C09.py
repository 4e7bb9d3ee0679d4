import importlib

import numpy as np
import rigeo as rg
from scipy.linalg import orth
from .. import gen, model as M
from ..core import Prop

P = Prop(
    "C09",
    rule="one case = one polyhedron, box, face description, ellipsoid or cylinder and what is inscribed in it; "
    "non-trivial if both the fit and the size were judged",
    technique="runtime monitoring: returned inscribed shapes judged online by exact fit margins and certified upper bounds "
    "on the volume",
    note="the fit is judged face by face (support of the ellipsoid against each face); maximality by a rigorous upper "
    "bound from multipliers (ellipsoids), an LP (spheres) or the closed-form optimum (boxes, affine images)",
    assumptions=["no slivers: solver accuracy of 1e-4 must not decide"],
)


def inscribed(c, A, b, sphere=False):
    """The face-description entry point (or the polyhedron method)."""
    fn = getattr(importlib.import_module("rigeo.shape.ellipsoid"), "mie_inequality_form", None)
    if fn is None:
        return c.call(rg.ConvexPolyhedron.from_halfspaces(A, b).mie, sphere=sphere)
    return c.call(fn, A, b, sphere=sphere)


def unit(rng, n, d):
    u = rng.normal(size=(n, d))
    return u / np.linalg.norm(u, axis=1, keepdims=True)


def read(c, E, d):
    if not c.check(isinstance(E, rg.Ellipsoid) and E.dim == d, "the result is an ellipsoid of the dimension", got=repr(E)[:200]):
        return None
    h, R, x = np.asarray(E.half_extents, float), np.asarray(E.rotation, float), np.asarray(E.center, float)
    if not c.check(np.all(np.isfinite(h)) and np.all(np.isfinite(x)) and np.allclose(R @ R.T, np.eye(d), atol=1e-6), "the result is well formed", h=h, R=R, center=x):
        return None
    return h, R, x


def hrep(m):
    """Faces within the affine hull: x = p0 + B y, A y <= b."""
    if isinstance(m, M.BoxM):
        nz = m.h > 0
        k = int(nz.sum())
        B = m.R[:, nz]
        return np.vstack((np.eye(k), -np.eye(k))), np.concatenate((m.h[nz], m.h[nz])), B, m.c
    return m.G, m.g, m.B, m.p0


def judge(c, E, m, sphere, sc, tol=3e-4):
    r = read(c, E, m.dim)
    if r is None:
        return
    h, R, x = r
    A, b, B, p0 = hrep(m)
    k = B.shape[1]
    nz = h > 1e-6 * sc
    if not c.check(nz.sum() == k, "the ellipsoid lives exactly in the affine hull", rank=int(nz.sum()), want=k, h=h):
        return
    N = np.linalg.svd(B.T, full_matrices=True)[2][k:].T if k < m.dim else np.zeros((m.dim, 0))
    axes = R[:, nz] * h[nz]
    c.check(np.all(np.abs(N.T @ axes) < 1e-5 * sc) and np.all(np.abs(N.T @ (x - p0)) < 1e-5 * sc), "the ellipsoid lies in the plane or line of the shape", off=N.T @ axes)
    if k == 0:
        return
    Y, y = B.T @ axes, B.T @ (x - p0)
    sup = A @ y + np.linalg.norm(A @ Y, axis=1)
    c.check(np.all(sup <= b + tol * sc), "the inscribed ellipsoid is inside", n=len(b), over=np.max(sup - b), h=h)
    vol = np.prod(h[nz])
    if sphere:
        c.check(np.ptp(h[nz]) <= 1e-4 * h.max(), "a requested sphere is a sphere", h=h)
        _, rr = M.chebyshev(A, b)
        c.check(h.max() >= rr * (1 - 2e-3), "no larger sphere fits", got=h.max(), largest=rr)
        return
    S = Y @ Y.T
    w, U = np.linalg.eigh(S)
    Bm = U @ np.diag(np.sqrt(w)) @ U.T
    ub = M.mie_upper_bound(A, b, Bm, y)
    if np.isfinite(ub) and ub - np.log(vol) < 5e-3:
        c.check(True, "no larger ellipsoid fits", got=np.log(vol), upper_bound=ub)
        return
    # the multipliers did not certify it: look for a concrete larger one
    s = better(A, b, Bm, y)
    c.check(s <= np.log(vol) + 1e-2, "no larger ellipsoid fits", logvol=np.log(vol), found=s)


def better(A, b, B, y):
    """log det of the best ellipsoid found by an independent program."""
    import cvxpy as cp

    k = A.shape[1]
    V, z = cp.Variable((k, k), PSD=True), cp.Variable(k)
    # shrink all faces a little so that solver error cannot fake a violation
    pr = cp.Problem(cp.Maximize(cp.log_det(V)), [cp.norm2(V @ a) + a @ z <= bb for a, bb in zip(A, b)])
    for sv in (cp.CLARABEL, cp.SCS):
        try:
            pr.solve(solver=sv)
        except Exception:
            continue
        if pr.status == "optimal":
            W = V.value
            over = max(np.max(A @ z.value + np.linalg.norm(A @ W, axis=1) - b), 0)
            W = W * (1 - 2 * over / np.min(np.linalg.eigvalsh(W)))
            return float(np.linalg.slogdet(W)[1])
    return -np.inf


@P.group(quick=220, thorough=5000)
def polyhedra(c, rng, i):
    d = int(rng.choice([1, 2, 3, 3, 3, 4]))
    fl = d > 1 and rng.random() < 0.35
    sphere = bool(rng.random() < 0.35)
    lib, m = gen.poly(rng, d, fl, size=gen.length_unit(rng, -4, 6))
    c.say(d=d, flat=fl, sphere=sphere, model=m.params())
    kw = dict(rcond=1e-9) if (fl or rng.random() < 0.3) else {}
    E = c.call(lib.mie, sphere=sphere, **kw)
    judge(c, E, m, sphere, m.size())


@P.group(quick=200, thorough=4000)
def boxes(c, rng, i):
    fl = bool(rng.random() < 0.3)
    sphere = bool(rng.random() < 0.35)
    u = gen.length_unit(rng)
    lib, m = gen.box(rng, fl, size=u)
    c.say(flat=fl, sphere=sphere, model=m.params())
    E = c.call(lib.mie, sphere=sphere)
    sc = m.size()
    if sphere:
        r = read(c, E, 3)
        if r is None:
            return
        h, R, x = r
        # a flat box holds only the point sphere
        c.check(np.ptp(h) <= 1e-9 * sc and abs(h.max() - m.h.min()) <= 1e-9 * sc, "largest sphere in a box", got=h, want=m.h.min())
        c.check(np.all(np.abs(m.R.T @ (x - m.c)) + h.max() <= m.h + 1e-8 * sc), "the inscribed sphere is inside", x=x, h=h)
        return
    r = read(c, E, 3)
    if r is not None:
        h, R, x = r
        c.check(np.allclose(R @ np.diag(h**2) @ R.T, m.R @ np.diag(m.h**2) @ m.R.T, rtol=0, atol=1e-9 * max(m.h) ** 2) and np.allclose(x, m.c, rtol=0, atol=1e-9 * sc), "largest ellipsoid in a box", h=h, want=m.h, x=x)
    # the same box as a general polyhedron
    if m.h[m.h > 0].size and m.h[m.h > 0].min() > 0.1 * u and rng.random() < 0.3 and not fl:
        judge(c, rg.ConvexPolyhedron(face_form=lib.face_form, span_form=lib.span_form).mie(), m, False, sc)


@P.group(quick=120, thorough=2500)
def affine(c, rng, i):
    """Regular bodies with a known inscribed ellipsoid, affinely mapped."""
    d = int(rng.choice([2, 3, 3, 4]))
    k = rng.choice(["cube", "simplex", "cross"])
    if k == "cube":
        A, b = np.vstack((np.eye(d), -np.eye(d))), np.ones(2 * d)
    elif k == "cross" and d <= 3:
        import itertools

        A = np.array(list(itertools.product([1.0, -1.0], repeat=d))) / np.sqrt(d)
        b = np.ones(len(A))
    else:
        # regular simplex circumscribed about the unit ball
        Q = np.eye(d + 1) - 1 / (d + 1)
        U = orth(Q)
        A = -(Q @ U)
        A /= np.linalg.norm(A, axis=1, keepdims=True)
        b = np.ones(d + 1)
    u = gen.length_unit(rng, -4, 6)
    s = rng.uniform(0.4, 2, d) * u
    T = gen.rot(rng, d) @ np.diag(s) @ gen.rot(rng, d)
    t = gen.trans(rng, d, big=False) * u
    A2 = A @ np.linalg.inv(T)
    b2 = b + A2 @ t
    f = rng.uniform(0.3, 3, len(b2))
    A2, b2 = A2 * f[:, None], b2 * f
    c.say(d=d, k=k, T=T, t=t)
    E = inscribed(c, A2, b2)
    r = read(c, E, d)
    if r is None:
        return
    h, R, x = r
    sc = max(np.abs(t).max(), s.max())
    c.close(R @ np.diag(h**2) @ R.T, T @ T.T, "inscribed ellipsoid of an affine image of a regular body", tol=4e-3, scale=max((s**2).max(), u**2))
    c.close(x, t, "center of the inscribed ellipsoid", tol=2e-3, scale=sc)
    c.close(np.sum(np.log(h)), np.log(abs(np.linalg.det(T))), "volume of the inscribed ellipsoid", tol=1e-3)


@P.group(quick=150, thorough=3000)
def inequality_form(c, rng, i):
    d = int(rng.choice([1, 2, 3, 3, 4]))
    sphere = bool(rng.random() < 0.4)
    for _ in range(50):
        m = M.Poly(gen.points(rng, d, flat=False))
        if m.well_conditioned():
            break
    A, b = m.G @ m.B.T, m.g + m.G @ m.B.T @ m.p0
    U = unit(rng, int(rng.integers(0, 3)), d)
    if len(U):
        A, b = np.vstack((A, U)), np.concatenate((b, m.support(U) + rng.uniform(0, 1, len(U))))
    f = 10 ** rng.uniform(-0.5, 0.5, len(b))
    u = gen.length_unit(rng, -4, 6)
    if u != 1:
        m, b, f = M.Poly(m.V * u), b * u, f / u
    c.say(d=d, sphere=sphere, A=A, b=b)
    E = inscribed(c, A * f[:, None], b * f, sphere)
    judge(c, E, m, sphere, m.size())


@P.group(quick=300, thorough=8000)
def inscribed_boxes(c, rng, i):
    lib, m = gen.any_shape(rng, flat=bool(rng.random() < 0.3), kinds=("ellipsoid", "cylinder"), big=True, size=gen.length_unit(rng))
    c.say(kind=m.kind, model=m.params())
    b = lib.mib()
    sc = m.size()
    if not c.check(isinstance(b, rg.Box), "the inscribed box is a box", got=type(b).__name__):
        return
    V = np.asarray(b.vertices)
    g, off = m.viol(V)
    c.check(np.all(g <= 1e-8 * sc) and np.all(off <= 1e-8 * sc), "the inscribed box is inside", n=8, over=np.max(g), off=np.max(off))
    h = np.sort(np.asarray(b.half_extents, float))
    rk = m.rank()
    if m.kind == "ellipsoid":
        mh = m.h[m.h > 0]
        want = np.prod(2 * mh / np.sqrt(rk)) if rk else 0
    else:
        mh = np.array(([m.L / 2] if m.L > 0 else []) + ([m.r / np.sqrt(2)] * 2 if m.r > 0 else []))
        want = np.prod(2 * mh)
    if rk == 0:
        c.check(np.all(h < 1e-9), "a point holds a point", h=h)
        return
    got = np.prod(2 * h[3 - rk:])
    c.close(got, want, "largest possible volume", tol=1e-9, scale=want)
    c.check(np.all(h[: 3 - rk] <= 1e-12), "no extent outside the plane or line", h=h)
