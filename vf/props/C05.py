import itertools

import numpy as np
import rigeo as rg
from .. import gen, model as M
from ..core import Prop

P = Prop(
    "C05",
    rule="one case = one finite point set (dimension 1-5; full, flat, collinear, repeated or single points; random, "
    "lattice, cospherical) and its hull; non-trivial if every point was classified extreme or not by the LP oracle",
    technique="runtime monitoring: returned hulls judged online by linear-programming separation certificates",
    note="each input point is certified extreme (strictly separable from the others) or not by an LP; sets with a point "
    "within 1e-3 of being extreme without being so are not judged",
    assumptions=["coordinates of moderate size"],
)


def pointset(rng, d):
    """Points, not deduplicated, of many kinds."""
    k = rng.choice(["random", "flat", "collinear", "lattice", "cospherical", "single", "repeated", "corners", "inner"])
    n = int(rng.integers(2, 2 * d + 8))
    if k == "single":
        X = np.repeat(rng.normal(size=(1, d)), int(rng.integers(1, 4)), axis=0)
    elif k == "collinear":
        u = rng.normal(size=d)
        X = rng.normal(size=d) + np.outer(rng.permutation(np.arange(n)) * 0.5, u / np.linalg.norm(u))
    elif k == "lattice":
        X = rng.integers(-2, 3, (n, d)).astype(float)
    elif k == "cospherical":
        X = rng.normal(size=(n, d))
        X /= np.linalg.norm(X, axis=1, keepdims=True)
    elif k == "corners":
        X = np.array(list(itertools.product([-1.0, 1.0], repeat=d))) * rng.uniform(0.5, 2, d)
        X = np.vstack((X, np.zeros((1, d)), X[:1] * 0.5, (X[[0]] + X[[1]]) / 2))
    elif k == "flat" and d > 1:
        X = gen.points(rng, d, flat=True, n=n)
    elif k == "inner":
        X = gen.points(rng, d, flat=None, n=n)
        w = rng.exponential(size=(5, len(X)))
        X = np.vstack((X, (w / w.sum(1, keepdims=True)) @ X))
    else:
        X = gen.points(rng, d, flat=False, n=n, rotate=rng.random() < 0.5)
    if k == "repeated" or rng.random() < 0.15:
        X = np.vstack((X, X[rng.integers(len(X), size=int(rng.integers(1, 4)))]))
    X = X[rng.permutation(len(X))]
    s = rng.uniform(1, 3) * 10.0 ** rng.choice([0, 0, 0, 1, 2, 3, 4]) if rng.random() < 0.8 else 1.0
    return k, X * s, s


def extremes(X, tol):
    """Extreme points of X, once each; None if a point is undecided."""
    Uq = [X[0]]
    for x in X[1:]:
        dd = min(np.max(np.abs(x - y)) for y in Uq)
        if dd > 1e-9:
            if dd < 1e-4:
                return None
            Uq.append(x)
    U = np.array(Uq)
    if len(U) == 1:
        return U
    m = np.array([M.extreme_margin(U, j) for j in range(len(U))])
    if np.any((m > tol) & (m < 1e-2)):
        return None
    return U[m > tol]


@P.group(quick=900, thorough=25000)
def hull(c, rng, i):
    d = int(rng.choice([1, 2, 2, 3, 3, 3, 4, 5]))
    k, X, s = pointset(rng, d)
    E = extremes(X / s, 1e-7)
    c.say(d=d, k=k, X=X)
    if E is None:
        return
    E = E * s
    H = rg.convex_hull(X) if rng.random() < 0.8 else rg.convex_hull(X, rcond=1e-9)
    if not c.check(isinstance(H, np.ndarray) and H.ndim == 2 and H.shape[1] == d, "hull is an array of points", got=H):
        return
    tol = 1e-7 * s
    D = np.max(np.abs(H[:, None] - X[None]), axis=2)
    c.check(np.all(D.min(axis=1) <= tol), "every hull vertex is one of the points", n=len(H), hull=H, X=X)
    G = np.max(np.abs(H[:, None] - E[None]), axis=2) <= tol
    c.check(np.all(G.any(axis=0)), "no extreme point is missing", n=len(E), missing=E[~G.any(axis=0)], hull=H, X=X)
    c.check(np.all(G.any(axis=1)), "no vertex is not extreme", n=len(H), extra=H[~G.any(axis=1)], X=X)
    c.check(np.all(G.sum(axis=0) <= 1), "no vertex twice", n=len(H), hull=H, X=X)
    # order of the points and the hull of a hull
    H2 = rg.convex_hull(X[rng.permutation(len(X))])
    c.check(M.rows_match(H2, H, tol), "point order does not matter", h1=H, h2=H2)
    c.check(M.rows_match(rg.convex_hull(H), H, tol), "the hull of the hull is the hull", h=H)


@P.group(quick=300, thorough=8000)
def rigid(c, rng, i):
    """The hull moves with the points; subsets and sums behave."""
    d = int(rng.choice([2, 3, 3, 4]))
    k, X, s = pointset(rng, d)
    X = X / s
    E = extremes(X, 1e-7)
    c.say(d=d, k=k, X=X)
    if E is None:
        return
    R, t = gen.rot(rng, d, rng.choice(["perm", "half", "rand"])), gen.trans(rng, d, big=False)
    H = rg.convex_hull(X @ R.T + t)
    c.check(M.rows_match(H, E @ R.T + t, 1e-6), "hull of moved points is the moved hull", got=H, want=E @ R.T + t)
    # integer-typed points
    if np.all(X == np.round(X)):
        H = rg.convex_hull(X.astype(int))
        c.check(M.rows_match(H, E, 1e-9), "integer points", got=H, want=E)


@P.group(quick=120, thorough=3000, cpu=120)
def many(c, rng, i):
    """Large sets: points of an ellipse or ellipsoid (all extreme) and points within."""
    d = int(rng.choice([2, 2, 3, 3, 4]))
    n = int(rng.choice([20, 61, 100, 130, 200, 260]))
    if d == 2:
        t = (np.arange(n) + rng.uniform(-0.2, 0.2, n)) * 2 * np.pi / n
        E = np.column_stack((np.cos(t), np.sin(t)))
    else:
        E = [gen.unit(rng, 1, d)[0]]
        for u in gen.unit(rng, 4000, d):  # clear of one another
            if len(E) < n and np.min(np.linalg.norm(np.array(E) - u, axis=1)) > 0.1:
                E.append(u)
        E = np.array(E)
    m = int(rng.choice([0, 5, 100]))
    S = rng.uniform(0.5, 2, d)
    Q, t = gen.rot(rng, d, "rand"), gen.trans(rng, d, big=False)
    E = E * S @ Q.T + t
    X = E
    if m:  # mixtures of the others, half of them repeated
        w = rng.uniform(0.1, 1, (m, d + 1))
        Y = np.array([v / v.sum() @ E[rng.choice(len(E), d + 1, replace=False)] for v in w])
        X = np.vstack((E, Y[rng.integers(0, m, m)]))
    X = X[rng.permutation(len(X))]
    c.say(d=d, n=len(E), m=m, X=X)
    H = c.call(rg.convex_hull, X)
    c.check(M.rows_match(H, E, 1e-9), "all of many extreme points are kept, and no others", n=len(E), got=len(H), m=m)
    if i % 4 == 0:
        H = c.call(rg.ConvexPolyhedron.from_vertices, X, prune=True).vertices
        c.check(M.rows_match(H, E, 1e-7), "all of many extreme points are vertices of the polyhedron", n=len(E), got=len(H), m=m)


@P.group(quick=400, thorough=10000)
def close_points(c, rng, i):
    """Extreme points that lie close together all count."""
    d = int(rng.choice([1, 2, 2, 3, 3, 4]))
    delta = [0.05, 0.02, 7e-3, 2e-3][i % 4]
    if i == 0:  # the recorded failing input
        return judge_close(c, rng, KNOWN_X, 2e-3)
    V = gen.points(rng, d, flat=bool(d > 1 and rng.random() < 0.25), n=int(rng.integers(1, 2 * d + 3)))
    S = np.vstack((np.zeros(d), gen.unit(rng, int(rng.integers(1, 3)), d) * delta))
    if i % 3 == 0:  # along axes
        S = np.vstack((np.zeros(d), np.eye(d)[rng.permutation(d)[: int(rng.integers(1, 3))]] * delta))
    X = np.vstack([V + s for s in S])
    X = X[rng.permutation(len(X))]
    c.say(d=d, delta=delta, X=X)
    judge_close(c, rng, X, delta)


CRASH_X = np.array([
    [63846.310723216026, 62343.58746440797, 58599.9250321037, 31579.753093991843, 2537.6190992514007], [61720.08068271829, 59473.33144381176, 76418.58149305456, 36990.65155573254, 10623.255735431834],
    [64045.07869302643, 58500.50011540664, 71944.97892958707, 42928.88559411354, 33685.75882851543], [70235.8066942436, 60256.72902220001, 43697.94960350975, 37331.842373900334, 24425.203978853555],
    [52448.98073738989, 56964.462020242, 70632.27006721134, 46249.781167844296, 32549.575057718564], [49301.37587000138, 52302.29311862422, 66835.10908900083, 50151.9836916565, 28233.20272154114],
    [61004.999690376986, 72448.4809580072, 63864.78530926028, 26004.11569764228, 16639.366569872207], [57436.464075072974, 55484.5247651947, 73554.6824273754, 40608.64379148482, 6827.886238270041],
    [57926.702593747934, 52599.169329638826, 45776.00532171352, 42865.92541210264, 7467.559867424382], [76792.77098853429, 63105.51033934276, 63729.771115993695, 32585.806814782343, 19376.012119256386],
])  # fmt: skip


@P.group(quick=300, thorough=8000)
def units(c, rng, i):
    """The hull of points given in other units of length."""
    if i == 0:  # once crashed the backend
        c.say(X=CRASH_X)
        H = c.call(rg.convex_hull, CRASH_X)
        c.check(M.rows_match(H, CRASH_X, 1e-6), "hull in any units", got=H)
        return
    d = int(rng.choice([1, 2, 2, 3, 3, 4]))
    k, X, s0 = pointset(rng, d)
    X = X / s0
    E = extremes(X, 1e-7)
    if E is None:
        return
    s = 10.0 ** rng.choice([-4, -3, -2, 4, 5, 6, 7])
    x = rng.normal(size=d) * rng.choice([0, 0, 1])
    W = s * (X + x)
    c.say(d=d, kind=k, scale=s, X=W)
    H = c.call(rg.convex_hull, W)
    ok = M.rows_match(H / s - x, E, 1e-8)
    mech = None
    if not ok and any(not cdd_keeps(X[rng.permutation(len(X))] if j else X, E) for j in range(8)):
        mech = "cdd-floats-close-points"
    c.check(ok, "hull in any units", mech=mech, got=H, want=s * (E + x), X=W, scale=s)
    if i % 3 == 0:
        p = c.call(rg.ConvexPolyhedron.from_vertices, W, prune=True)
        c.check(M.rows_match(p.vertices / s - x, E, 1e-8), "vertices of the polyhedron in any units", mech=mech, got=p.vertices, scale=s)


KNOWN_X = np.array([
    [-0.4331, 0.988, -0.9666], [-0.43, 0.99, -0.97], [-0.5731, 0.128, 0.0534], [0.3869, 0.158, -0.1066],
    [-0.57, 0.13, 0.05], [0.9869, -0.182, -0.5666], [0.39, 0.16, -0.11], [0.99, -0.18, -0.57],
])  # fmt: skip


def judge_close(c, rng, X, delta):
    c.say(X=X)
    D = np.max(np.abs(X[:, None] - X[None]), axis=2)
    if np.any((D > 1e-12) & (D < delta / 10)):
        return
    U = X[[j for j in range(len(X)) if not np.any(D[j, :j] <= 1e-12)]]
    m = np.array([M.extreme_margin(U, j) for j in range(len(U))]) if len(U) > 1 else np.ones(1)
    if np.any((m > 1e-7) & (m < 0.05 * delta)):
        return
    E = U[m > 1e-7]
    mech = []

    def judge(tag, got, tol):
        c.seen(tag, len(E))
        if not M.rows_match(got, E, tol):
            if not mech:  # does cdd alone, in some order of these rows, get them wrong too?
                mech.append("cdd-floats-close-points" if any(not cdd_keeps(X[rng.permutation(len(X))] if k else X, E) for k in range(8)) else None)
            c.fail(tag, mech[0], got=got, want=E, X=X, delta=delta)

    judge("all of several close extreme points are kept", c.call(rg.convex_hull, X), 1e-9)
    judge("all of several close extreme points are vertices of the polyhedron", c.call(rg.ConvexPolyhedron.from_vertices, X, prune=True).vertices, 1e-7)


def cdd_keeps(X, E):
    """cdd itself, as given and about the centre in units of the size."""
    import cdd

    x = X.mean(axis=0)
    s = 2.0 ** np.round(np.log2(np.abs(X - x).max()))
    x = s * np.round(x / s)
    return raw_keeps(X, E, cdd) and raw_keeps((X - x) / s, (E - x) / s, cdd)


def raw_keeps(X, E, cdd):
    m = cdd.Matrix(np.hstack((np.ones((len(X), 1)), X)))
    m.rep_type = cdd.RepType.GENERATOR
    m.canonicalize()
    return M.rows_match(np.array([m[k] for k in range(m.row_size)])[:, 1:], E, 1e-9)
