import numpy as np
import cvxpy as cp
import rigeo as rg
from .. import gen, cvx, model as M
from ..core import Prop, Inconclusive

P = Prop(
    "C02",
    rule="one case = one random shape, one set of generated containment constraints (scale absent, a number, a "
    "variable, or an entry of a matrix variable; one or several points) and a few programs solved over them; "
    "non-trivial if a solved optimum or projection was compared with the reference support function",
    technique="runtime monitoring: optima over the generated constraints compared online with reference support functions",
    note="decided through solved optima (solver accuracy ~1e-6; 2e-3 for flat shapes, where the semidefinite form "
    "loses the square root of the solver tolerance)",
)


def tol(m):
    return (3e-3 if m.rank() < m.dim else 3e-5) * m.scale()


def unit(rng, d, n=None):
    u = rng.normal(size=d if n is None else (n, d))
    return u / np.linalg.norm(u, axis=-1, keepdims=True)


def pick(rng):
    d = 3
    u = rng.random()
    fl = rng.random() < 0.2
    if u < 0.2:
        d = int(rng.choice([1, 2, 4]))
        return gen.ellipsoid(rng, d, fl and d > 1, big=False) if rng.random() < 0.5 else gen.poly(rng, d, fl and d > 1)
    return gen.any_shape(rng, flat=fl)


@P.group(quick=160, thorough=4000)
def support(c, rng, i):
    """Extreme values over the constraints are the (scaled) support values."""
    lib, m = pick(rng)
    d = m.dim
    k = rng.choice(["none", "none", "float", "int", "small", "large"])
    s = 1.0 if k == "none" else float(rng.uniform(0.2, 3)) if k == "float" else int(rng.integers(1, 4))
    if k in ("small", "large"):
        s = float(10.0 ** rng.uniform(-2, -0.7)) if k == "small" else float(rng.choice([7.0, 20.0, 100.0]))
    c.say(kind=m.kind, scale=s, model=m.params())
    p = cp.Variable(d)
    cons = lib.must_contain(p) if k == "none" else lib.must_contain(p, scale=s)
    c.check(isinstance(cons, list) and len(cons) > 0, "a list of constraints")
    U = unit(rng, d, 3)
    if rng.random() < 0.3:
        U[0] = np.eye(d)[rng.integers(d)] * rng.choice([-1, 1])
    for u in U:
        st, v = cvx.maximize(u @ p, cons)
        want = s * m.support(u[None])[0]
        c.check(st in cvx.OK and abs(v - want) <= tol(m) * max(0.3, s), "support value over the constraints", status=st, got=v, want=want, u=u, scale=s, kind=m.kind)


@P.group(quick=80, thorough=2500)
def projection(c, rng, i):
    """Nearest admitted point to a query point: zero distance exactly inside."""
    lib, m = pick(rng)
    d = m.dim
    s = float(rng.choice([1.0, 1.0, 0.5, 2.5]))
    lo, hi = m.bbox()
    c.say(kind=m.kind, scale=s, model=m.params())
    p = cp.Variable(d)
    cons = lib.must_contain(p, scale=s) if s != 1 else lib.must_contain(p)
    for q in (s * m.inside(rng, 1)[0], s * m.boundary(rng, 1)[0], s * (m.c + 1.5 * (m.boundary(rng, 1)[0] - m.c)), rng.uniform(s * lo - 1, s * hi + 1)):
        st, v = cvx.minimize(cp.norm(p - q), cons)
        if not c.check(st in cvx.OK, "some point is admitted", status=st, kind=m.kind):
            return
        x = p.value
        t = tol(m) * max(1, s)
        lab = m.classify((q / s)[None], 1e-6)[0]
        if lab > 0:
            c.check(v <= t, "every point of the shape is admitted", got=v, q=q, kind=m.kind)
        lab = m.classify((x / s)[None], 3 * t / s)[0]
        c.check(lab >= 0, "no point outside the shape is admitted", x=x, kind=m.kind)
        if v > 10 * t:
            n = (q - x) / np.linalg.norm(q - x)
            c.check(s * m.support(n[None])[0] <= n @ x + 10 * t + 10 * t * np.linalg.norm(q - x), "no admitted point is missing towards the query", gap=s * m.support(n[None])[0] - n @ x, kind=m.kind)


@P.group(quick=80, thorough=2500)
def outside_infeasible(c, rng, i):
    lib, m = pick(rng)
    d = m.dim
    c.say(kind=m.kind, model=m.params())
    p = cp.Variable(d)
    cons = lib.must_contain(p)
    s = float(rng.choice([1.1, 1.5, 3.0]))
    q = m.c + s * (m.boundary(rng, 1)[0] - m.c) if m.rank() else m.c + unit(rng, d)
    if m.rank() < d and rng.random() < 0.5:
        q = q + 0.3 * unit(rng, d)
    if m.classify(q[None], 2e-2)[0] >= 0:
        q = m.c + 3 * unit(rng, d) * m.scale()
    st, v = cvx.minimize(0, cons + [p == q])
    c.check(st == "infeasible", "a point outside is infeasible", status=st, q=q, kind=m.kind)
    q = m.c + 0.5 * (m.boundary(rng, 1)[0] - m.c)
    if m.rank() == d:
        st, v = cvx.minimize(0, cons + [p == q])
        c.check(st in cvx.OK, "a point inside is feasible", status=st, q=q, kind=m.kind)


@P.group(quick=100, thorough=3000)
def variable_scale(c, rng, i):
    """Scale as a program variable: the cone over the shape."""
    lib, m = pick(rng)
    d = m.dim
    k = rng.choice(["var", "nonneg", "entry", "expr"])
    extra = []
    if k == "var":
        s = cp.Variable()
    elif k == "nonneg":
        s = cp.Variable(nonneg=True)
    elif k == "entry":
        J = cp.Variable((d + 1, d + 1), symmetric=True)
        s = J[d, d]
    else:
        z = cp.Variable(2)
        s = z[0] + z[1]
    if k == "entry":
        p = J[:d, d]
    else:
        p = cp.Variable(d)
    a, b = 0.4, float(rng.uniform(0.6, 2.5))
    c.say(kind=m.kind, scale=k, b=b, model=m.params())
    cons = lib.must_contain(p, scale=s) + [s >= a, s <= b]
    for u in unit(rng, d, 3):
        h = m.support(u[None])[0]
        kk = h + rng.choice([-0.5, 0.5])
        st, v = cvx.maximize(u @ p - kk * s, cons)
        want = max(a * (h - kk), b * (h - kk))
        c.check(st in cvx.OK and abs(v - want) <= tol(m) * 3, "extreme value over point and scale", status=st, got=v, want=want, kind=m.kind, scale=k)
    # gauge of a fixed point when the origin is well inside
    if m.rank() == d and m.classify(np.zeros((1, d)), 0.05)[0] > 0:
        q = m.boundary(rng, 1)[0] * float(rng.uniform(0.3, 2))
        s = cp.Variable()
        p = cp.Variable(d)
        st, v = cvx.minimize(s, lib.must_contain(p, scale=s) + [p == q, s >= 0, s <= 50])
        if st in cvx.OK:
            g = m.classify((q / (v * 1.01))[None], 0)[0], m.classify((q / (v * 0.99))[None], 0)[0]
            c.check(g == (1, -1), "gauge of a point", got=v, cls=g, kind=m.kind)
        else:
            c.check(False, "gauge of a point", status=st)


@P.group(quick=80, thorough=2500)
def several_points(c, rng, i):
    """Every one of several points is constrained, each independently."""
    lib, m = pick(rng)
    d = m.dim
    n = int(rng.choice([1, 2, 3, d, d + 1, 5, 8, 13]))
    s = float(rng.choice([1.0, 1.0, 0.5, 2.0]))
    c.say(kind=m.kind, n=n, s=s, model=m.params())
    X = cp.Variable((n, d))
    cons = lib.must_contain(X, scale=s) if s != 1 else lib.must_contain(X)
    U = unit(rng, d, n)
    W = rng.uniform(0.5, 1.5, n)
    st, v = cvx.maximize(cp.sum([w * (u @ X[j]) for j, (w, u) in enumerate(zip(W, U))]), cons)
    want = s * float(W @ m.support(U))
    c.check(st in cvx.OK and abs(v - want) <= 2 * n * tol(m) * max(1, s), "joint support value of several points", status=st, got=v, want=want, kind=m.kind, npts=n)
    j = int(rng.integers(n)) if rng.random() < 0.6 else n - 1
    st, v = cvx.maximize(U[0] @ X[j], cons)
    want = s * m.support(U[:1])[0]
    c.check(st in cvx.OK and abs(v - want) <= tol(m) * 2 * max(1, s), "each point is constrained", status=st, got=v, want=want, j=j, kind=m.kind, npts=n)


@P.group(quick=40, thorough=1200)
def expressions(c, rng, i):
    """Points given as affine expressions; constraints of two shapes combine."""
    l1, m1 = gen.any_shape(rng, flat=False)
    c.say(kind=m1.kind, model=m1.params())
    R, t = gen.rot(rng), rng.normal(size=3)
    z = cp.Variable(3)
    u = unit(rng, 3)
    st, v = cvx.maximize(u @ z, l1.must_contain(R @ z + t))
    want = m1.support((R @ u)[None])[0] - (R @ u) @ t
    c.check(st in cvx.OK and abs(v - want) <= tol(m1) * 3, "affine expression of a variable", status=st, got=v, want=want, kind=m1.kind)
    # Minkowski sum of two shapes through two variables
    l2, m2 = gen.any_shape(rng, flat=False)
    p1, p2 = cp.Variable(3), cp.Variable(3)
    st, v = cvx.maximize(u @ p1 + u @ p2, l1.must_contain(p1) + l2.must_contain(p2))
    want = m1.support(u[None])[0] + m2.support(u[None])[0]
    c.check(st in cvx.OK and abs(v - want) <= 3 * (tol(m1) + tol(m2)), "constraints of two shapes combine", status=st, got=v, want=want)
